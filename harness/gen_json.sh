#!/bin/bash
# the system nlohmann/json.hpp with two hooks: dump() registers the value behind a text, parse() finds it again
out=$1; mkdir -p $out/nlohmann
python3 - "$out/nlohmann/json.hpp" <<'P'
import sys
s=open('/usr/include/nlohmann/json.hpp').read()
a='''            s.dump(*this, false, ensure_ascii, 0);
        }

        return result;'''
assert a in s
s=s.replace(a,a.replace('return result;','if constexpr (std::is_same<basic_json, ::nlohmann::json>::value) vt_json_dumped(this, result);\n        return result;'))
b='''        basic_json result;
        parser(detail::input_adapter(std::forward<InputType>(i)), cb, allow_exceptions, ignore_comments).parse(true, result);'''
assert b in s
s=s.replace(b,'''        basic_json result;
        if constexpr (std::is_same<typename std::decay<InputType>::type, std::string>::value && std::is_same<basic_json, ::nlohmann::json>::value) { if (const void *vt_p = vt_json_lookup(i)) { return *static_cast<const basic_json *>(vt_p); } }
        parser(detail::input_adapter(std::forward<InputType>(i)), cb, allow_exceptions, ignore_comments).parse(true, result);''')
i=s.index('#include <algorithm>')
s=s[:i]+'#include <string>\nvoid vt_json_dumped(const void *, const std::string &);\nconst void *vt_json_lookup(const std::string &);\n'+s[i:]
open(sys.argv[1],'w').write(s)
P
