#ifndef VDRV_H
#define VDRV_H
// The driver executes specification steps on the real FLAME code and reports the projected state.
// One JSON command per input line, one JSON answer per output line.
#include <nlohmann/json.hpp>
#include <string>
#include <map>
#include <functional>
typedef nlohmann::json json;
typedef std::function<json(const json&)> handler_t;
void add_handler(const std::string& op, handler_t h);
struct Reg { Reg(const char* op, handler_t h) { add_handler(op, h); } };
#define OP(NAME) static json h_##NAME(const json& c); static Reg r_##NAME(#NAME, h_##NAME); static json h_##NAME(const json& c)
// doubles cross the pipe as 16 hex digits of their bit pattern (exact), or as JSON numbers
std::string dhex(double);
double hexd(const std::string&);
double num(const json&);
class Config;
Config json2config(const json&);
json config2json(const Config&, bool flat);
std::string exname(const std::exception& e);
#endif
