// Stand-in for the ConcLog submodule (empty in this checkout): every logging
// statement is type-checked but never executed, so it can have no effect.
#ifndef VERIF_STUB_CONCLOG_LOGGING_HPP
#define VERIF_STUB_CONCLOG_LOGGING_HPP
#include <cmath>
#include <iomanip>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>

#define CONCLOG_SCOPE_CREATE ;
#define CONCLOG_PRINTLN(text) { if (false) { std::ostringstream vstub_os_; vstub_os_ << text; } }
#define CONCLOG_PRINTLN_AT(level,text) CONCLOG_PRINTLN(text)
#define CONCLOG_PRINTLN_VAR(var) CONCLOG_PRINTLN(var)
#define CONCLOG_PRINTLN_VAR_AT(level,var) CONCLOG_PRINTLN(var)
#define CONCLOG_SCOPE_PRINTHOLD(text) CONCLOG_PRINTLN(text)
#define CONCLOG_RUN_AT(level,fn) fn;
#define CONCLOG_RUN_MUTED(fn) fn;

namespace ConcLog {

class ProgressIndicator {
  public:
    ProgressIndicator(double final_value = 0.0) : _final(final_value), _current(0.0), _step(0) { }
    double final_value() const { return _final; }
    double current_value() const { return _current; }
    void update_current(double v) { if (_current != v) { _current = v; ++_step; } }
    void update_final(double v) { _final = v; }
    char symbol() const { return "\\|/-"[_step % 4]; }
    unsigned int percentage() const { return static_cast<unsigned int>(std::round(_current / _final * 100)); }
  private:
    double _final, _current; unsigned int _step;
};

struct TerminalTextTheme { };
inline const TerminalTextTheme TT_THEME_DARK, TT_THEME_LIGHT, TT_THEME_NONE;

class LoggerConfiguration {
  public:
    void set_theme(TerminalTextTheme const&) { }
    void set_verbosity(unsigned int) { }
};

class Logger {
  public:
    static Logger& instance() { static Logger l; return l; }
    void use_immediate_scheduler() { }
    void use_blocking_scheduler() { }
    void use_nonblocking_scheduler() { }
    void register_self_thread(std::string const&, unsigned int) { }
    LoggerConfiguration& configuration() { return _c; }
  private:
    LoggerConfiguration _c;
};

} // namespace ConcLog
#endif
