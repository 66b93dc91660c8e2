#!/usr/bin/env python3
"""Generates structs_gen.go: struct types with embedding, name conflicts and tags for C20."""
import random
r = random.Random(20)
names = ["A", "B", "C", "x", "y", "AB", "Å", "é"]
scal = ["int", "string", "bool", "uint8", "*int", "*string", "[]int", "interface{}"]
tagnames = ["", "", "A", "a", "B", "C", "x", "-", "k1", "é", "a b", "a/b", "A!#$%&()*+-./:<=>?@[]^_{|}~", 'a\\\\b', "a'b", "1", "世界"]
opts = ["", "", "", ",omitempty", ",string", ",omitempty,string", ",string,omitempty", ",", ",bogus", ",omitempty ", ", string", ",omitemptyx,string", ",stringomitempty"]
out = ["// Code generated by gen_structs.py. DO NOT EDIT.", "", "package main", "", 'import "reflect"', ""]
made = []  # (name, depth, exported)
listing = []


def ptrcyc(n):
    return n


def gen(i):
    exported = r.random() < 0.5
    nm = ("G%d" if exported else "g%d") % i
    body = []
    used = set()
    depth = 0
    nf = r.choice([0, 1, 1, 2, 3, 4, 6])
    ne = r.choice([0, 1, 2, 2, 3]) if made else 0
    items = ["f"] * nf + ["e"] * ne
    r.shuffle(items)
    for it in items:
        if it == "f":
            fn = r.choice(names)
            if fn in used:
                continue
            used.add(fn)
            t = r.choice(scal)
            tag = ""
            if r.random() < 0.5:
                o = r.choice(opts)
                tn = r.choice(tagnames)
                if "string" in o and t in ("[]int", "interface{}") and r.random() < 0.5:
                    o = ""
                tag = ' `json:"%s%s"`' % (tn, o)
            if r.random() < 0.05:
                tag = r.choice([' `xml:"q"`', ' `json:A`', ' `json:""`', ' `json:"-,"`', ' `foo:"1" json:"zz,omitempty"`'])
            body.append("\t%s %s%s" % (fn, t, tag))
        else:
            cand = [m for m in made if m[1] < 3]
            e = r.choice(cand[-14:])
            if e[0] in used:
                continue
            used.add(e[0])
            depth = max(depth, e[1] + 1)
            star = "*" if r.random() < 0.4 else ""
            tag = ""
            # (the standard library misbehaves on tagged embedded pointers to unexported structs)
            if r.random() < 0.15 and not (star and not e[2]):
                tag = ' `json:"%s"`' % r.choice(["A", "B", "emb", "-", "emb,omitempty", ",omitempty"])
            body.append("\t%s%s%s" % (star, e[0], tag))
    if r.random() < 0.08:
        body.append("\tmyInt%d" % (i % 3))
    if r.random() < 0.08:
        body.append("\tMyInt%d" % (i % 3))
    out.append("type %s struct {" % nm)
    out.extend(body)
    out.append("}")
    out.append("")
    made.append((nm, depth, exported))
    listing.append(nm)


for i in range(3):
    out.append("type myInt%d int" % i)
    out.append("type MyInt%d int" % i)
out.append("")
for i in range(420):
    gen(i)
out.append("var structTypes = []reflect.Type{")
for n in listing:
    out.append("\treflect.TypeOf(%s{})," % n)
out.append("}")
open(__file__.replace("gen_structs.py", "structs_gen.go"), "w").write("\n".join(out) + "\n")
