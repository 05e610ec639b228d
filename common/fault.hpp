// Stand-ins for the calls with which a program changes files. When armed, each
// call is numbered, and one of them can be made to kill the process, to be cut
// short, or to fail.
#pragma once
#include <cerrno>
#include <string>
namespace fault
{
enum mode { off, trace, kill_before, kill_torn, fail_once, fail_from };
struct plan
{
    mode how = off; long at = -1; int error = ENOSPC; std::string log;
    std::string text() const { return std::to_string(int(how)) + " " + std::to_string(at) + " " + std::to_string(error) + " " + log; }
};
void arm_from_environment();
}
