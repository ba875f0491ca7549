// A static object of the caller's, linked at varying places among the library's object files.
void world_phase(int);
bool stage_active();
namespace {
struct Mid {
    Mid() { if (stage_active()) world_phase(1); }
    ~Mid() { if (stage_active()) world_phase(4); }
} mid;
}
