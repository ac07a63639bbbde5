"""Writes random types that use cnosdb's derives, and what to expect of them."""
import os
import random


def camel(r):
    n = r.randint(1, 3)
    w = []
    for _ in range(n):
        x = "".join(r.choice("abcdefgxyz") for _ in range(r.randint(1, 5)))
        w.append(x.capitalize())
        if r.random() < 0.25:
            w.append(str(r.randint(0, 120)))
    return "".join(w)


def snake(name):
    """HelloWorld11x -> hello_world_11_x"""
    out = []
    prev_digit = False
    for i, c in enumerate(name):
        if c.isdigit():
            if not prev_digit:
                out.append("_")
            prev_digit = True
        else:
            if prev_digit or (i and c.isupper()):
                out.append("_")
            prev_digit = False
        out.append(c.lower())
    return "".join(out)


def generate(seed, enums=40, structs=40):
    r = random.Random(f"derive/{seed}")
    src, errs = [], []
    for e in range(enums):
        en = f"E{e}{camel(r)}"
        mod = r.choice([None, "01", "02", "05", "99", "00", "a1"])
        vs, disp = [], []
        used_codes, used_names, used_fns = set(), set(), set()
        attr = f'#[error_code(mod_code = "{mod}")]\n' if mod is not None else ""
        for _ in range(r.randint(1, 8)):
            v = camel(r)
            if v in used_names or snake(v) in used_fns:
                continue
            used_names.add(v)
            used_fns.add(snake(v))
            code = None
            if r.random() < 0.75:
                code = r.choice([r.randint(0, 20), r.randint(0, 9999), 9999, 1])
                if code in used_codes:
                    code = None
                else:
                    used_codes.add(code)
            shape = r.choice(["unit", "tuple", "named", "named"])
            a = f"    #[error_code(code = {code})]\n" if code is not None else ""
            if shape == "unit":
                vs.append(f"{a}    {v},")
                disp.append(f'            {en}::{v} => write!(f, "{v}!"),')
                make, msg = f"{en}::{v}", f'"{v}!".to_string()'
            elif shape == "tuple":
                vs.append(f"{a}    {v}(String),")
                disp.append(f'            {en}::{v}(s) => write!(f, "{v}: {{s}}"),')
                make, msg = f"{en}::{v}(s.to_string())", f'format!("{v}: {{s}}")'
            else:
                src_field = r.random() < 0.3
                f = "source" if src_field else "n"
                vs.append(f"{a}    {v} {{ {f}: u64, text: String }},")
                disp.append(f'            {en}::{v} {{ {f}, text }} => write!(f, "{{{f}}}-{v}-{{text}}"),')
                make, msg = f"{en}::{v} {{ {f}: n, text: s.to_string() }}", f'format!("{{n}}-{v}-{{s}}")'
            full = (mod or "00") + ("%04d" % (code if code is not None else 0))
            method = f"Some({en}::code_{snake(v)})" if code is not None else "None"
            errs.append(
                f'    Err1 {{ name: "{en}::{v}", code: "{full}", make: |n, s| {{ let _ = (n, s); Box::new({make}) }}, '
                f'message: |n, s| {{ let _ = (n, s); {msg} }}, method: {method}, shape: "{shape}" }},')
        src.append(
            f"#[derive(Debug, ErrorCoder)]\n{attr}pub enum {en} {{\n" + "\n".join(vs) + "\n}\n"
            f"impl std::fmt::Display for {en} {{\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{\n        match self {{\n"
            + "\n".join(disp) + f"\n        }}\n    }}\n}}\nimpl std::error::Error for {en} {{}}\n")
    keys, made = [], []
    prims = ["u8", "u64", "i32", "usize", "f64", "bool", "String", "std::time::Duration", "char", "i128"]
    for s in range(structs):
        sn = f"S{s}"
        fields, want, names = [], [], set()
        depth = 1
        for _ in range(r.randint(0, 6)):
            f = "_".join("".join(r.choice("abcxyz019") for _ in range(r.randint(1, 4))) for _ in range(r.randint(1, 3)))
            if f[0].isdigit():
                f = "k" + f
            if f in names or f in ("as", "fn"):
                continue
            names.add(f)
            if made and r.random() < 0.4:
                t, sub, d = r.choice(made)
                depth = max(depth, d + 1)
            else:
                t, sub = r.choice(prims), []
            for w in range(r.choice([0, 0, 1, 2])):
                t = r.choice(["Option", "Vec"]) + f"<{t}>"
            fields.append(f"    pub {f}: {t},")
            want += [f"{f.upper()}.{k}" for k in sub] if sub else [f.upper()]
        if len(want) <= 60:
            made.append((sn, want, depth))
        src.append(f"#[derive(Debug, Keys)]\npub struct {sn} {{\n" + "\n".join(fields) + "\n}\n")
        keys.append(f'    Keys1 {{ name: "{sn}", keys: <{sn} as FieldKeys>::field_keys, want: &[' + ", ".join(f'"{w}"' for w in want) + f"], depth: {depth} }},")
    return ("\n".join(src) + "\npub static ERRORS: &[Err1] = &[\n" + "\n".join(errs) + "\n];\n"
            + "pub static KEYS: &[Keys1] = &[\n" + "\n".join(keys) + "\n];\n")


def write(path, seed, enums=40, structs=40):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = generate(seed, enums, structs)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def accepted():
    return ("use derive_traits::ErrorCoder;\n#[derive(Debug, ErrorCoder)]\n#[error_code(mod_code = \"01\")]\npub enum E {\n"
            "    #[error_code(code = 9999)]\n    A,\n    #[error_code(code = 2)]\n    B { x: u8 },\n}\n"
            "impl std::fmt::Display for E {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"e\") }\n}\n"
            "impl std::error::Error for E {}\n")


def rejects(seed, n):
    """Programs the derives must refuse: (source, why)."""
    r = random.Random(f"rejects/{seed}")
    out = []
    for i in range(n):
        k = i % 4
        a, b = r.randint(0, 9999), r.randint(0, 9999)
        attr_a, attr_b, mod = f"code = {a}", f"code = {a if k == 0 else (a + 1) % 10000}", "01"
        if k == 0:
            why = f"two variants with the code {a}"
        elif k == 1:
            big = r.choice([10000, 10001, 99999, 10**6 + b])
            attr_b, why = f"code = {big}", f"code {big} has more than four digits"
        elif k == 2:
            mod = r.choice(["", "1", "123", "0100"])
            why = f"module code {mod!r} is not two characters"
        else:
            attr_b, why = r.choice([("cod = 3", "unknown attribute"), ('code = "x"', "code is not a number"), (f"code = {a + 1 if a < 9999 else 1}, code = {b}", "code given twice")])
        order = [f"    #[error_code({attr_a})]\n    A,", f"    #[error_code({attr_b})]\n    B {{ x: u8 }},"]
        if r.random() < 0.5:
            order.reverse()
        filler = "".join(f"    F{j},\n" for j in range(r.randint(0, 3)))
        out.append((
            f"use derive_traits::ErrorCoder;\n#[derive(Debug, ErrorCoder)]\n#[error_code(mod_code = \"{mod}\")]\npub enum E {{\n"
            + order[0] + "\n" + filler + order[1] + "\n}\n"
            "impl std::fmt::Display for E {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"e\") }\n}\n"
            "impl std::error::Error for E {}\n", why))
    return out
