// uses of the option classes, so that the compiler emits them (C14)
#include "options.hpp"
using namespace da_options;
da_status use_opt(OptionRegistry &r, std::shared_ptr<OptionBase> o, OptionString &s) {
    da_int i = 0; float f = 0; double d = 0; bool b = false; std::string t; const char *c = "";
    OptionNumeric<da_int> oi(t, t, i, greaterequal, i, lessequal, i); OptionNumeric<float> of(t, t, f, greaterequal, f, lessequal, f);
    OptionNumeric<double> od(t, t, d, greaterequal, d, lessequal, d); OptionNumeric<bool> ob(t, t, b);
    r.register_opt(o); r.set("a", i); r.set("a", f); r.set("a", d); r.set("a", b); r.set("a", t); r.set("a", c);
    r.get("a", i); r.get("a", f); r.get("a", d); r.get("a", b); r.get("a", t); r.get("a", t, i);
    s.set(t); s.get(t); s.get(t, i); s.query_map(t, i, true);
    return r.query_map("a", t, i);
}
