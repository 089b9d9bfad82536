// Runs a command-line tool as a program on the simulated disk.
#ifndef VERIF_PROGRAM_H
#define VERIF_PROGRAM_H
#include <string>
#include <vector>
int fm_viewer_main(int argc, char **argv);
// Missing if the tool does not compile with the stand-ins of sim/stub.
int config_generator_main(int argc, char **argv) __attribute__((weak));
namespace prog {
// option: one that only this tool has.
int run(int (*tool)(int, char **), const char *option,
        std::vector<std::string> args, const std::string &out = "");
}
#endif
