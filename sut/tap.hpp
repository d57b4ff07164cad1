#pragma once
#include <cstddef>
#include <string>
enum { TAP_LOSSY = 1, TAP_DOUBLE = 2 };
void tap_next(int w);                        // the next watcher to be opened is this one
void tap_deliver(int w, std::string const& path, bool has, std::string const& apath, int effect, int kind, long long t, int how);
void tap_empty(int w, char const* when);     // everything said has been handed on
void tap_forget(int w);                      // nobody is left to hand it to
bool tap_closed(int w);
bool tap_result(int w);                      // of its close
size_t tap_waiting(int w);
// An attempt to watch a path which is made for its own sake: the library, if it is asked, says that it can't, or is only pretended to have begun.
enum { TRIAL_REFUSE = 0, TRIAL_PRETEND = 1 };
std::string odd_path(char const* kind, int n, int& how, bool& must_refuse); // empty: no such kind
void tap_trial(int how, char const* path, size_t n);
bool tap_trial_open();                        // what was pretended goes on
void tap_trial_end(char const* what, bool said_no, bool must_say_no, char const* told);
void tap_unsay();                             // what is being said to this thread is refused, and not to be handed on
