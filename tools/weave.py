"""Puts the annotations of proofs/*.ann into functions extracted from the expanded source of /repo."""
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOFS = os.path.join(VERIF, "proofs")

LIMB = {
    "l64": {"T": "u64", "W": "u128", "S": "i64", "BITS": "64", "TOP": "63", "B": "0x1_0000_0000_0000_0000", "MASK": "0xffff_ffff_ffff_ffff",
            "WHALF": "0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff", "HALF": "0x8000_0000_0000_0000"},
    "l32": {"T": "u32", "W": "u64", "S": "i32", "BITS": "32", "TOP": "31", "B": "0x1_0000_0000", "MASK": "0xffff_ffff",
            "WHALF": "0x7fff_ffff_ffff_ffff", "HALF": "0x8000_0000"},
}


class Lost(Exception):
    """The annotations no longer fit the source."""


def fill(text, values):
    return re.sub(r"@([A-Z]+)@", lambda m: values[m.group(1)], text)


def parse(name, values):
    """Sections of an annotation file: lemmas as they are, functions with their anchors."""
    text = fill(open(os.path.join(PROOFS, name)).read(), values)
    sections = []
    for part in re.split(r"^=== ", text, flags=re.M)[1:]:
        head, _, body = part.partition("\n")
        kind, _, rest = head.strip().partition(" ")
        if kind == "fn":
            path, _, owner = rest.partition(" in ")
            pieces = re.split(r"^--- (\w+)\n", body, flags=re.M)
            attrs = re.findall(r"^@attr (.*)\n", pieces[0], flags=re.M)
            spec = re.sub(r"^@attr .*\n", "", pieces[0], flags=re.M)
            sections.append({"kind": "fn", "path": path.strip(), "owner": owner.strip(), "spec": spec, "attrs": attrs,
                             "at": dict(zip(pieces[1::2], pieces[2::2]))})
        else:
            sections.append({"kind": kind, "path": rest.strip(), "text": body})
    return sections


def extract(binary, expanded, paths):
    out = subprocess.run([binary, expanded] + paths, capture_output=True, text=True)
    if out.returncode != 0:
        raise Lost("extraction failed: " + out.stderr[-400:])
    items = {}
    for line in out.stdout.splitlines():
        d = json.loads(line)
        items.setdefault(d["path"], d)
    return items


def pretty(body):
    p = subprocess.run(["rustfmt", "--edition", "2021", "--emit", "stdout"], input="fn f() " + body, capture_output=True, text=True)
    if p.returncode != 0:
        return body
    return p.stdout[len("fn f() "):].rstrip()


def weave(s, item):
    at = dict(s["at"])
    body = pretty(item["body"])
    for name in at:
        if name not in item["anchors"]:
            raise Lost("%s: no position %s" % (s["path"], name))

    def put(m):
        return at.get(m.group(1), "")
    # Loop invariants stand between the condition and the body.
    body = re.sub(r"\{\s*__a_(inv_\d+)\s*!\s*\(\)\s*;", lambda m: "\n" + put(m) + "{", body)
    body = re.sub(r"__a_(\w+)\s*!\s*\(\)\s*;", put, body)
    ret = " -> (ret: %s)" % item["output"] if item["output"] else ""
    return "%sfn %s%s(%s)%s\n%s%s" % ("".join(a + "\n" for a in s["attrs"]), item["name"], item["generics"], item["inputs"], ret, s["spec"], body)


def module(binary, expanded, files, values, only=None):
    """The text given to Verus, the functions in it and what the extraction changed."""
    sections = []
    for f in files:
        f, _, kind = f.partition(":")
        more = dict(values)
        if "WIDTH" in values:
            more["N"] = str(int(values["WIDTH"]) // int(values["BITS"]))
            more["BYTES"] = str(int(values["WIDTH"]) // 8)
            more["ALIGN"] = str(int(values["BITS"]) // 8)
        if kind:
            more["SELF"] = kind + values["WIDTH"]
        if f.endswith(".rs"):
            sections.append({"kind": "text", "path": "", "text": fill(open(os.path.join(PROOFS, f)).read(), more)})
        else:
            sections += parse(f, more)
    want = [s["path"] for s in sections if s["kind"] in ("fn", "item")]
    items = extract(binary, expanded, want)
    out = ["use vstd::prelude::*;", "use vstd::string::*;", "use core::cmp::Ordering;", "verus! {", fill(open(os.path.join(PROOFS, "prelude.rs")).read(), values)]
    functions, notes = [], set()
    for s in sections:
        if s["kind"] == "fn":
            if s["path"] not in items:
                raise Lost("%s: not found" % s["path"])
            item = items[s["path"]]
            text = weave(s, item)
            if s["owner"]:
                text = "%s {\n%s\n}" % (s["owner"], text)
            out.append(text)
            functions.append(s["path"])
            notes |= set(item["notes"])
        elif s["kind"] == "item":
            if s["path"] not in items:
                raise Lost("%s: not found" % s["path"])
            text = items[s["path"]]["body"]
            if s["text"].strip():
                text = s["text"].strip() + "\n" + text
            out.append(text)
        else:
            out.append(s["text"])
    out += ["} // verus!", "fn main() {}", ""]
    return "\n".join(out), functions, sorted(notes)


if __name__ == "__main__":
    import sys
    cfg, expanded = sys.argv[1:3]
    text, fns, notes = module(os.path.join(VERIF, "build/extract/release/extract"), expanded, sys.argv[3:], dict(LIMB[cfg], WIDTH="256"))
    print(text)
