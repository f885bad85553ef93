// Programs, diagnostics and file-based operations of the whole pipeline.
#pragma once
#include <memory>
#include "ops.hpp"

namespace sim {
enum Form { F_JSON = 0, F_STRS = 1, F_DUMP = 2, F_RAISE = 3 };
std::string gen_program(Rng&, Gen&);
struct ErrView { std::string message, file; bool has_file = false; uint32_t l1 = 0, c1 = 0, l2 = 0, c2 = 0; };
ErrView view_error(const std::string& json, const std::string& who);          // decodes a diagnostic
std::string outside(const std::string& text, const ErrView&);                 // empty: the location lies inside the text
void keep_alive(std::shared_ptr<void>);                                       // per caller, until release_kept
void release_kept();
std::string pipe_path(const Op&);                                             // the simulated file an operation reads
Op pipe_canonical(const Op&);                                                 // the simplest call that has to give the same outcome
bool pipe_version(const Op&);                                                 // the operation's analyzer is of a version that exists
Op fpipe_canonical(const Op&, const std::string& data);
Op g_pipe(Rng&, Gen&);
std::string read_more(Ctx&, Obj&, const Op&);
uint64_t spread(const std::string& text);   // how many indices its index ranges can stand for
}  // namespace sim
