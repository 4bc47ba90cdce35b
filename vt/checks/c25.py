"""C25: the compiler-output prettifier rewrites quantity types and nothing else."""
import os, subprocess, tempfile
import lspgen, model, types_ as ty, vlib
from checks import c17

RULE = ("generated compiler-like outputs (lines of code, diagnostics, unicode, invalid UTF-8, CR LF, with and without a last newline, long lines, look-alikes) "
        "with 0-4 generated quantity types per line in the ways rustc and source code spell them, through the real command-line program by pipe and by file with every "
        "combination of options; plus real rustc errors; the output is read back; non-trivial: a text with a quantity type")


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C25", RULE)
    drv = vlib.Server(vlib.build_driver())
    tb = model.load(drv)
    drv.close()
    exe = vlib.build_bin("whippyunits-pretty", "whippyunits-pretty")
    q = lspgen.strategies(tb)
    line = lspgen.texts(q(source=True).filter(lambda x: "\n" not in x.text), newlines=False)

    def cli(data, opts, file):
        with tempfile.TemporaryDirectory() as d:
            args = [exe] + opts
            if file:
                p = os.path.join(d, "in.txt")
                with open(p, "wb") as f:
                    f.write(data)
                args += ["-f", p]
            try:
                r = subprocess.run(args, input=None if file else data, stdin=subprocess.DEVNULL if file else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   env=vlib.env(), timeout=60)
            except subprocess.TimeoutExpired:
                return None, "hangs"
        return r.stdout, None if r.returncode == 0 else f"ends with status {r.returncode}: {r.stderr.decode(errors='replace')[-200:]}"

    @hs.composite
    def doc(draw):
        n = draw(hs.sampled_from([0, 1, 2, 5, 12]))
        lines = [draw(line) for _ in range(n)]
        eols = [draw(hs.sampled_from(["\n"] * 8 + ["\r\n"])) for _ in lines]
        if lines and draw(hs.booleans()):
            eols[-1] = ""
        junk = draw(hs.sampled_from([None] * 8 + [b"\xff\xfe", b"\xc3", b"\xe2\x82", b"\x80abc"]))
        at = draw(hs.integers(0, 12))
        long = draw(hs.sampled_from([0] * 12 + [100000]))
        return lines, eols, junk, at, long, draw(hs.booleans()), draw(hs.booleans()), draw(hs.booleans()), draw(hs.booleans())

    def oracle(c):
        lines, eols, junk, at, long, file, verbose, nouni, raw = c
        opts = ["-v"] * verbose + ["-n"] * nouni + ["-r"] * raw
        # each line as list of segments; junk and filler are literal text
        data = b""
        spec = []
        for i, (l, e) in enumerate(zip(lines, eols)):
            l = list(l)
            if long and i == at % max(1, len(lines)):
                l[0] = "x" * long + " " + l[0]
            j = ""
            if junk and not raw and i == at % max(1, len(lines)):
                j = " " + junk.decode("utf-8", "surrogateescape")
            data += (lspgen.render(l) + j + e).encode("utf-8", "surrogateescape")
            spec.append((l, j, e))
        out, err = cli(data, opts, file)
        how = f"{'file' if file else 'pipe'} {' '.join(opts)}".strip()
        if err:
            return "status", f"whippyunits-pretty ({how}) {err}"
        text = out.decode("utf-8", "surrogateescape")
        pos = 0
        for l, j, e in spec:
            w, end = lspgen.match_at(tb, l, text, pos, verbose)
            src = lspgen.render(l)
            tail = j + e
            if not w and raw and text[pos:end] != src:
                x = "\n\nRaw:\n\n" + src
                if not text.startswith(x, end):
                    w = "raw", f"{src!r} is followed by {text[end:end + 80]!r} instead of the raw text"
                end += len(x)
            if not w and not text.startswith(tail, end):
                w = "line-end", f"the line {src[:200]!r} followed by {tail!r} comes out followed by {text[end:end + 60]!r}"
            if w:
                return w[0], f"({how}) {w[1]}"
            pos = end + len(tail)
        if text[pos:]:
            return "added", f"({how}) {text[pos:pos + 80]!r} was added at the end"
        if not any(len(l) > 1 for l in lines):
            return False
        return None

    ck.explore("generated outputs", doc(), oracle, vlib.tier(4000, 40000), sample=lambda c: [lspgen.render(l) for l in c[0]][:3], key=lambda c: repr([lspgen.render(l) for l in c[0]]))
    # -- what rustc really prints for generated types
    rng = ck.rng
    SRC = ["let _: {a} = x;", "let _ = x + y;", "let _ = x == y;", "let _: () = x;", "let _: f64 = y.into();", "needs(x);", "let _: Vec<{b}> = vec![x];", "let _: (i32, {b}) = (1, x);",
           "let () = Some(x);", "x.nothing();", "x.no_field;", "takes(x);", "let _: fn({a}) -> {b} = f;", "let _: &{b} = &x;", "let _ = [x, y];", "if x > y {{}}", "let _: {b} = loop {{ break x }};"]
    nt = 0
    for k in range(vlib.tier(1, 4)):
        pr = vlib.Prog(f"c25_rustc{k}", "#![allow(unused)]\nuse whippyunits::quantity::*;\n" + "pub struct BrandA; pub mod my { pub struct BrandB; pub struct Tag<T>(T); }\ntrait Absent {}\nfn needs<T: Absent>(_: T) {}\nfn f() {}")
        for i in range(vlib.tier(60, 150)):
            q2 = []
            for _ in range(2):
                d, s = c17.gen(rng, tb, False)
                q2.append(ty.qty(s, d, rng.choice(["f64", "f64", "f32", "i32"]), rng.choice(["()", "()", "BrandA", "my::BrandB", "my::Tag<u8>"])))
            a, b = q2
            body = " ".join(x.format(a=a, b=b) for x in rng.sample(SRC, 3))
            pr.add(f"mod m{i} {{ use super::*; fn takes(_: {b}) {{}} fn g(x: {a}, y: {b}) {{ {body} }} }}")
        pr.write()
        p = vlib.cargo(["check", "--offline"], pr.dir)
        data = p.stderr
        if b"error" not in data or vlib.split_repo_errors([], data.decode(errors="replace")):
            raise vlib.CheckError("no compiler output: " + data.decode(errors="replace")[-2000:])
        for opts in ([], ["-v"]):
            for file in (False, True):
                out, err = cli(data, opts, file)
                if err:
                    ck.report("status", f"whippyunits-pretty on compiler output {err}", {"opts": opts})
                    continue
                src, dst = data.decode().split("\n"), out.decode(errors="replace").split("\n")
                if len(src) != len(dst):
                    ck.report("lines", f"{len(src)} lines of compiler output become {len(dst)}", {"opts": opts})
                for x, y in zip(src, dst):
                    segs = lspgen.scan(x)
                    ck.count("real compiler output", f"{opts}{x}", len(segs) > 1, x[:300])
                    w = lspgen.match(tb, segs, y, bool(opts))
                    nt += sum(1 for z in segs if not isinstance(z, str) and z.resolved)
                    if w:
                        ck.report("rustc:" + w[0], f"{w[1]} ({opts})", {"line": x, "output": y, "opts": opts})
    ck.notes["resolved types in real compiler output"] = nt
    return ck.finish()
