#!/usr/bin/env python3
"""Writes harness/drv/asserts/forms_test.go: the ways in which the call of an assertion may be written."""
import os
H = {  # helper: (parameter type, values for which it holds, values for which it does not)
 "EqualsType": ("any", ("1", "2"), ("1", '"a"')),
 "EqualsStr": ("string", ('"a"', '"a"'), ('"a"', '"b"')),
 "NotEqualsStr": ("string", ('"a"', '"b"'), ('"a"', '"a"')),
 "EqualsGo": ("any", ("1", "1"), ("1", "2")),
 "NotEqualsGo": ("any", ("1", "2"), ("1", "1")),
 "EqualsJSON": ("any", ("1", "1"), ("1", "2")),
 "NotEqualsJSON": ("any", ("1", "2"), ("1", "1")),
 "Nil": ("any", ("nil",), ("1",)),
 "NotNil": ("any", ("1",), ("nil",)),
 "Empty": ("any", ('""',), ('"a"',)),
 "NotEmpty": ("any", ('"a"',), ('""',)),
 "Assert": ("bool", ("true",), ("false",)),
 "NoError": ("error", ("nil",), ("io.EOF",)),
 "Error": ("error", ("io.EOF",), ("nil",)),
 "Contains": ("string", ('"ab"', '"b"'), ('"ab"', '"c"')),
}
out = ["// Code generated by tools/genforms.py. DO NOT EDIT.", "package asserts", "", "import (", '\t"io"', '\t"testing"', "", '\t"github.com/Aize-Public/forego/ctx"', '\t"github.com/Aize-Public/forego/test"', ")", "",
       "var _ = io.EOF", "var _ ctx.C", "", "func run(f func()) { f() }", "", "var forms = map[string]func(t *testing.T){"]
decl = []
for h, (ty, yes, no) in H.items():
    first = "test.Context(t)" if "JSON" in h else "t"
    fty = "ctx.C" if "JSON" in h else "*testing.T"
    n = len(yes)
    names = ["x", "y"][:n]
    decl.append(f"func pair{h}(t {fty}, {', '.join(names)} {ty}) ({fty}, {', '.join([ty]*n)}) {{ return t, {', '.join(names)} }}")
    decl.append(f"func wrapped{h}(t *testing.T, {', '.join(names)} {ty}) {{\n\tt.Helper()\n\ttest.{h}({first}, {', '.join(names)})\n}}")
    if ty == "any":
        decl.append(f"func generic{h}[T any](t *testing.T, {', '.join(names)} T) {{ test.{h}({first}, {', '.join(names)}) }}")
    else:
        decl.append(f"func generic{h}[T {'~string' if ty == 'string' else '~bool' if ty == 'bool' else 'error'}](t *testing.T, {', '.join(names)} T) {{\n\ttest.{h}({first}, {', '.join(f'{ty}({v})' for v in names)})\n}}")
    for holds, vals in ((True, yes), (False, no)):
        set_ = "var " + ", ".join(names) + f" {ty} = " + ", ".join(vals)
        args = ", ".join(names)
        ok = ", ".join(yes)
        body = {
          "lines": f"{set_}\n\t\ttest.{h}(\n\t\t\t{first},\n" + "".join(f"\t\t\t{v},\n" for v in names) + "\t\t)",
          "variable": f"{set_}\n\t\tf := test.{h}\n\t\tf({first}, {args})",
          "deferred": f"{set_}\n\t\tdefer test.{h}({first}, {args})",
          "paren": f"{set_}\n\t\t(test.{h})({first}, {args})",
          "spread": f"{set_}\n\t\ttest.{h}(pair{h}({first}, {args}))",
          "literal": f"{set_}\n\t\tfunc() {{}}(); test.{h}({first}, {args})",
          "wrapped": f"{set_}\n\t\twrapped{h}(t, {args})",
          "nested": f"{set_}\n\t\trun(func() {{ test.{h}({first}, {args}) }})",
          "generic": f"{set_}\n\t\tgeneric{h}(t, {args})",
          "twice": f"{set_}\n\t\ttest.{h}({first}, {ok}); test.{h}({first}, {args})",
        }
        fl = {("NotNil", True): "func() {}", ("Nil", False): "func() {}", ("EqualsType", True): "func() {}, func() {}", ("EqualsType", False): "1, func() {}", ("NotEqualsGo", True): "func() {}, 1"}.get((h, holds))
        if fl: body["literal"] = f"test.{h}({first}, {fl})"
        for f, b in body.items():
            out.append(f'\t"{f} {h} {str(holds).lower()}": func(t *testing.T) {{\n\t\t{b}\n\t}},')
out.append("}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "drv", "asserts", "forms_test.go"), "w").write("\n".join(out + [""] + decl) + "\n")
