// End-to-end harness: SMT-LIB scripts with symbolic numeric constants, run through the real parser and solver.
#pragma once
#include "../engine/sym.h"
#include "Options.h"
#include "Smt2_parser.h"
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace e2e {
struct Script {
    std::string text;                 // commands; $name = symbolic real constant, %name = symbolic integer constant
    int lo = -6, hi = 6;              // range of the symbolic constants
    int options = 0;                  // 0 default; 1 every option combination is explored
    bool uf = false;
    bool expect_checks = true;
    bool ends_only = false;           // C25: only that every check-sat gets an answer
};
struct Model { std::vector<std::string> lines; };

// run one script under the current inputs and check verdict and (if requested) the model
void run(Script const& s, bool check_verdict, bool check_model);
std::string gen_lra(unsigned seed, int size, int nsym, std::string const& flavour);
}
