"""C22: the LSP proxy relays every message, both ways, changing nothing but the text it prettifies."""
import json, os, selectors, shutil, subprocess, sys, time
import lspgen, model, vlib

RULE = ("generated message streams in both directions (requests, notifications, responses, errors; ids, nesting, unicode, white space and look-alikes in bodies; header variants) cut into "
        "chunks anywhere, through the real proxy process with a scripted language server; conversations, a server that exits, an editor that leaves, noise on stderr; what arrives at either "
        "end is compared with what was sent; non-trivial: at least two messages")
FAKE = r'''
import os, sys, json, threading, time
d = os.environ["WU_FAKE"]
sc = json.load(open(d + "/script"))
got, cond, done = [0], threading.Condition(), [False]
with open(d + "/args", "w") as f:
    json.dump(sys.argv[1:], f)
out = open(d + "/received", "wb", buffering=0)
def reader():
    while True:
        b = os.read(0, 65536)
        if not b:
            break
        out.write(b)
        with cond:
            got[0] += len(b)
            cond.notify()
    with cond:
        done[0] = True
        cond.notify()
t = threading.Thread(target=reader, daemon=True)
t.start()
def put(fd, b):
    while b:
        b = b[os.write(fd, b):]
try:
    for a, x in sc:
        if a == "out":
            put(1, bytes.fromhex(x))
        elif a == "err":
            put(2, bytes.fromhex(x))
        elif a == "sleep":
            time.sleep(x)
        elif a == "need":
            with cond:
                cond.wait_for(lambda: got[0] >= x or done[0], 120)
        elif a == "eof":
            with cond:
                cond.wait_for(lambda: done[0], 120)
        elif a == "exit":
            os._exit(x)
except BrokenPipeError:
    os._exit(3)
os._exit(0)
'''
LONG = 40.0


def frames(data):
    """an independent reading of a framed stream -> ([body bytes], error)"""
    out, p = [], 0
    while p < len(data):
        e = data.find(b"\r\n\r\n", p)
        if e < 0:
            return out, f"no end of header in {data[p:p + 80]!r}"
        n = None
        for l in data[p:e].split(b"\r\n"):
            k, c, v = l.partition(b":")
            if not c:
                return out, f"bad header line {l[:80]!r}"
            if k.strip().lower() == b"content-length":
                n = v.strip()
        if n is None or not n.isdigit():
            return out, f"bad header {data[p:e][:80]!r}"
        n = int(n)
        if e + 4 + n > len(data):
            return out, f"a message of {n} bytes is cut short after {len(data) - e - 4}"
        out.append(data[e + 4:e + 4 + n])
        p = e + 4 + n
    return out, None


def run():
    import hypothesis.strategies as hs
    ck = vlib.Check("C22", RULE)
    drv = vlib.Server(vlib.build_driver(lsp=True))
    tb = model.load(drv)
    proxy = vlib.build_bin("whippyunits-lsp-proxy", "lsp-proxy")
    base = os.path.join(vlib.GEN, "c22")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(os.path.join(base, "bin"))
    vlib._write(os.path.join(base, "fake.py"), FAKE)
    sh = os.path.join(base, "bin", "rust-analyzer")
    vlib._write(sh, f"#!/bin/sh\n[ \"$1\" = --version ] && {{ echo rust-analyzer 1.0; exit 0; }}\nexec {sys.executable} -S -E {base}/fake.py \"$@\"\n")
    os.chmod(sh, 0o755)

    q = lspgen.strategies(tb)
    plain = lspgen.lits(True, True)
    typed = lspgen.texts(q(), newlines=True, fences=True, maxq=2, minq=1)
    text = hs.one_of(hs.text(alphabet=hs.characters(blacklist_categories=("Cs",)), max_size=20), plain, plain,
                     hs.sampled_from(["Content-Length: 10\r\n\r\n{}", "\r\n\r\n", "{\"jsonrpc\":", "\u0000", "\u2028", "𝄞", "Quantity", "Scale Dimension", "C:\\x", "file:///größe%20x.rs", "\ufeff"]))
    num = hs.one_of(hs.integers(-10, 10), hs.integers(-2 ** 70, 2 ** 70), hs.sampled_from([0.1, 1e300, -2.5e-300, 1e16]))
    scalar = hs.one_of(hs.none(), hs.booleans(), num, text, text)
    key = hs.one_of(hs.sampled_from(["uri", "range", "items", "label", "kind", "data", "contents", "value", "position", "result", "method", "id", "type", "größe"]), hs.text(max_size=4))
    tree = hs.recursive(scalar, lambda x: hs.one_of(hs.lists(x, max_size=4), hs.dictionaries(key, x, max_size=4)), max_leaves=12)
    small = hs.one_of(hs.none(), hs.booleans(), hs.integers(-2 ** 53, 2 ** 53), text)
    ident = hs.one_of(hs.integers(0, 2 ** 31), hs.text(min_size=1, max_size=8), hs.sampled_from([0, -1, "0", "ra#1"]))
    method = hs.sampled_from(["textDocument/hover", "textDocument/didChange", "initialize", "initialized", "$/progress", "$/cancelRequest", "window/logMessage", "shutdown", "exit",
                              "textDocument/publishDiagnostics", "inlayHint/resolve", "größe/µ"])

    @hs.composite
    def request(draw):
        m = {"jsonrpc": "2.0"}
        k = draw(hs.sampled_from(["req", "req", "note", "note", "resp", "err"]))
        if k != "note":
            m["id"] = draw(ident)
        if k in ("req", "note"):
            m["method"] = draw(method)
            if draw(hs.integers(0, 5)):
                m["params"] = draw(tree)
        elif k == "resp":
            m["result"] = draw(tree)
        else:
            m["error"] = {"code": draw(hs.integers(-40000, 1000)), "message": draw(text)}
            if draw(hs.booleans()):
                m["error"]["data"] = draw(tree)
        if draw(hs.integers(0, 9)) == 0:
            m[draw(hs.sampled_from(["trace", "meta", "Ä"]))] = draw(tree)
        if draw(hs.integers(0, 3)) == 0:
            m = dict(reversed(list(m.items())))
        return m

    def plant(m, draw):
        """hide a type where the proxy has nothing to prettify"""
        t = lspgen.render(draw(typed))
        k = draw(hs.sampled_from(["params", "error", "item", "result"]))
        if k == "params":
            return {"jsonrpc": "2.0", "method": "window/logMessage", "params": {"type": 3, "message": t}}, None
        if k == "error":
            return {"jsonrpc": "2.0", "id": 7, "error": {"code": -1, "message": t}}, None
        if k == "item":
            return {"jsonrpc": "2.0", "id": 8, "result": {"isIncomplete": False, "items": [{"label": "x", "detail": t, "n": draw(num)}]}}, None
        return {"jsonrpc": "2.0", "id": "s", "result": t}, None

    @hs.composite
    def incoming(draw):
        """-> (JSON, None | ("hover" | "hint", segments))"""
        k = draw(hs.sampled_from(["any"] * 6 + ["hover", "hover", "hint", "hint", "hide", "big", "deep"]))
        if k == "hover":
            segs = draw(typed)
            if draw(hs.integers(0, 7)) == 0:        # a great deal of text that looks like types, or of anything
                segs = [draw(hs.sampled_from(["Quantity<", "Quantity<Scale, Dimension ", "<", "x -> ", "```rust\n", "\n```\n", "µ", "Scale<_2<", "Quantity<Scale<", "Quantity<>"])) * draw(hs.sampled_from([1000, 20000])) + " \n"] + segs[1:]
            return {"jsonrpc": "2.0", "id": draw(hs.integers(0, 10 ** 6)), "result": {"contents": {"kind": "markdown", "value": lspgen.render(segs)}, "range": {"start": {"line": 1, "character": 2}, "end": {"line": 1, "character": 5}}}}, ("hover", segs)
        if k == "hint":
            segs = [": ", draw(q()), ""]
            return {"jsonrpc": "2.0", "id": draw(hs.integers(0, 10 ** 6)), "result": [{"position": {"line": 3, "character": 4}, "label": [{"value": ": "}, {"value": segs[1].text}], "kind": 1, "data": draw(small)},
                                                                                    {"position": {"line": 9, "character": 1}, "label": "x:", "kind": 2, "data": draw(small)}]}, ("hint", segs)
        if k == "hide":
            return plant(None, draw)
        m = draw(request())
        if k == "big":
            m["params"] = [draw(text) + draw(hs.sampled_from(["x", "µ", "\n", "Quantity<", "λ𝄞"])) * draw(hs.sampled_from([5000, 40000, 300000])), draw(tree)]
        if k == "deep":
            x = draw(scalar)
            for _ in range(draw(hs.sampled_from([20, 130, 400]))):
                x = [x] if draw(hs.booleans()) else {"a": x}
            m["params"] = x
        return m, None

    style = hs.sampled_from(["compact"] * 5 + ["ascii", "ascii", "spaced", "indent", "crlf", "around"])

    def body(j, st):
        if st in ("compact", "ascii"):
            t = json.dumps(j, ensure_ascii=st == "ascii", separators=(",", ":"))
        elif st == "spaced":
            t = json.dumps(j, ensure_ascii=False)
        elif st == "around":
            t = " \n" + json.dumps(j, ensure_ascii=False) + "\r\n"
        else:
            t = json.dumps(j, ensure_ascii=False, indent=1)
            if st == "crlf":
                t = t.replace("\n", "\r\n\r\n")
        return t.encode("utf-8")
    header = hs.sampled_from(["Content-Length: {}\r\n\r\n"] * 8 + ["Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n",
                                                                  "Content-Type: application/vscode-jsonrpc; charset=utf8\r\nContent-Length: {}\r\n\r\n", "content-length: {}\r\n\r\n", "CONTENT-LENGTH: {}\r\n\r\n"])

    @hs.composite
    def framed(draw, msgs):
        out = []
        for m in msgs:
            b = body(m, draw(style))
            out.append(draw(header).format(len(b)).encode() + b)
        return out

    @hs.composite
    def cut(draw, data):
        """the bytes in chunks"""
        k = draw(hs.sampled_from([0, 0, 1, 2, 3, 6]))
        at = sorted(draw(hs.lists(hs.integers(0, len(data)), min_size=k, max_size=k))) if data else []
        if data and draw(hs.integers(0, 5)) == 0 and len(data) < 300:
            at = list(range(len(data)))
        ps = [0] + at + [len(data)]
        return [data[a:b] for a, b in zip(ps, ps[1:]) if b > a]
    nap = hs.sampled_from([0, 0, 0, 0, .001, .004])

    @hs.composite
    def case(draw):
        ins = draw(hs.lists(incoming(), max_size=6))
        outs = draw(hs.lists(request(), max_size=5))
        fi, fo = draw(framed([m for m, _ in ins])), draw(framed(outs))
        mode = draw(hs.sampled_from(["talk", "talk", "server-exits", "editor-leaves", "open"]))
        steps = []          # interleaving: ("s", bytes) the server writes, ("e", bytes) the editor writes
        a, b = list(fi), list(fo)
        while a or b:
            side = "s" if a and (not b or draw(hs.booleans())) else "e"
            # several messages may travel together
            n = draw(hs.integers(1, 3)) if mode != "talk" else 1
            take, lst = [], a if side == "s" else b
            for _ in range(n):
                if lst:
                    take.append(lst.pop(0))
            steps.append((side, draw(cut(b"".join(take))), len(take)))
        noise = draw(hs.sampled_from([None] * 4 + [b"warning: x\n", b"\xff\xfe broken\n", b"no newline", b"\n" * 100, b"e" * 200000]))
        env = {"WHIPPYUNITS_VERBOSE": draw(hs.sampled_from([None, "true"])), "WHIPPYUNITS_UNICODE": draw(hs.sampled_from([None, None, "false"]))}
        args = draw(hs.sampled_from([[], [], ["--log-file", "/dev/null"], ["größe", "a b"]]))
        return ins, fi, fo, mode, steps, noise, env, args, draw(nap)

    slow = [LONG]

    def play(c):
        """-> (editor received, server received, server args, exit status or None when stopped, problem)"""
        ins, fi, fo, mode, steps, noise, env, args, pause = c
        d = os.path.join(base, str(os.getpid()))
        os.makedirs(d, exist_ok=True)
        for f in ("received", "args"):
            if os.path.exists(f"{d}/{f}"):
                os.remove(f"{d}/{f}")
        script, editor = [], []
        sent_s = sent_e = got_s = 0
        for side, chunks, n in steps:
            total = sum(map(len, chunks))
            if side == "s":
                if mode == "talk" and sent_e:
                    script.append(("need", sent_e))
                if noise and not sent_s:
                    script.append(("err", noise.hex()))
                for x in chunks:
                    script.append(("out", x.hex()))
                    if pause:
                        script.append(("sleep", pause))
                sent_s += total
                got_s += n
            else:
                if mode == "talk" and got_s:
                    editor.append(("need", got_s))
                for x in chunks:
                    editor.append(("out", x))
                    if pause:
                        editor.append(("sleep", pause))
                sent_e += total
        if mode == "server-exits":
            script += [("need", sent_e), ("exit", 0)]
        else:
            script += [("eof", 0), ("exit", 0)]
        json.dump(script, open(f"{d}/script", "w"))
        e = {k: v for k, v in os.environ.items() if not k.startswith("WHIPPYUNITS") and k != "RUST_LOG"}
        e.update({k: v for k, v in env.items() if v}, WU_FAKE=d, PATH=os.path.join(base, "bin") + ":" + e.get("PATH", "/usr/bin:/bin"))
        p = subprocess.Popen([proxy] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=d)
        os.set_blocking(p.stdin.fileno(), False)
        os.set_blocking(p.stdout.fileno(), False)
        out, problem, want = b"", None, len(ins)
        limit = time.time() + slow[0]
        sel = selectors.DefaultSelector()
        sel.register(p.stdout, selectors.EVENT_READ)
        writing = False
        eof = closed = False
        todo, i, buf, wake = editor, 0, b"", 0

        def whole():
            return len(frames(out)[0])
        while True:
            now = time.time()
            if now > limit:
                problem = "stall"
                break
            # what the editor does next
            while not closed and not buf and i < len(todo):
                a, x = todo[i]
                if a == "out":
                    buf = x
                elif a == "sleep":
                    if not wake:
                        wake = now + x
                    if now < wake:
                        break
                    wake = 0
                elif whole() < x:
                    break
                i += 1
            finished = i == len(todo) and not buf
            if finished and not closed:
                if mode == "editor-leaves" or mode in ("open", "talk") and whole() >= want and os.path.exists(f"{d}/received") and os.path.getsize(f"{d}/received") >= sent_e:
                    p.stdin.close()
                    closed = True
                    if writing:
                        writing = False
            if buf and not writing and not closed:
                sel.register(p.stdin, selectors.EVENT_WRITE)
                writing = True
            for k, _ in sel.select(.001 if wake or finished and not closed else .02):
                if k.fileobj is p.stdin:
                    try:
                        n = os.write(p.stdin.fileno(), buf)
                        buf = buf[n:]
                    except BlockingIOError:
                        pass
                    except BrokenPipeError:
                        problem, buf, i = "the proxy stopped reading", b"", len(todo)
                        closed = True
                    if not buf and writing:
                        sel.unregister(p.stdin)
                        writing = False
                else:
                    b = os.read(p.stdout.fileno(), 1 << 16)
                    if b:
                        out += b
                    else:
                        eof = True
                        sel.unregister(p.stdout)
            if eof:
                break
        if not problem:
            try:
                p.wait(max(.1, limit - time.time()))
            except subprocess.TimeoutExpired:
                problem = "stall"
        st = p.poll()
        if st is None:
            p.kill()
            p.wait()
        for f in (p.stdin, p.stdout):
            try:
                f.close()
            except OSError:
                pass
        time.sleep(0)
        rec = open(f"{d}/received", "rb").read() if os.path.exists(f"{d}/received") else b""
        ar = json.load(open(f"{d}/args")) if os.path.exists(f"{d}/args") else None
        return out, rec, ar, st, problem, whole()

    def show(c):
        ins, fi, fo, mode, steps, noise, env, args, pause = c
        cutb = lambda b: b.decode()[:800]
        return {"mode": mode, "from server": [cutb(x) for x in fi], "from editor": [cutb(x) for x in fo], "steps": [(s, [len(x) for x in ch]) for s, ch, n in steps], "stderr": repr(noise)[:40], "env": env, "args": args, "pause": pause}

    def compare(m, info, src, got, verbose, nouni):
        if got == src[src.index(b"\r\n\r\n") + 4:]:
            if info and any(not isinstance(x, str) and x.resolved for x in info[1]):
                return "not-prettified", f"the {info[0]} {got.decode()[:500]!r} is relayed with its type unconverted"
            return None
        try:
            j = json.loads(got)
        except ValueError as e:
            return "content", f"the message {src.decode()[:500]!r} arrives as {got[:500]!r}, which is not JSON ({e})"
        if not info:
            return None if j == m and repr(j) == repr(m) else ("content", f"the message {src.decode()[:500]!r} arrives as {got.decode()[:500]!r}")
        kind, segs = info
        try:
            if kind == "hover":
                t = j["result"]["contents"]["value"]
                j["result"]["contents"]["value"] = m["result"]["contents"]["value"]
            else:
                lab = j["result"][0]["label"]
                t = lab if isinstance(lab, str) else "".join(x["value"] for x in lab)
                j["result"][0]["label"] = m["result"][0]["label"]
        except (KeyError, TypeError, IndexError):
            return "content", f"the message {src.decode()[:500]!r} arrives as {got.decode()[:500]!r}"
        if j != m:
            return "content", f"the message {src.decode()[:500]!r} arrives as {got.decode()[:500]!r}"
        return lspgen.match(tb, segs, t, verbose and kind == "hover")

    def oracle(c):
        ins, fi, fo, mode, steps, noise, env, args, pause = c
        out, rec, ar, st, problem, n = play(c)
        if problem == "stall" and slow[0] == LONG:
            slow[0] = 4.0           # the verdict stands; the rest is shrinking
        fs, err = frames(out)
        if problem:
            return "stall", f"{problem}: {len(fs)} of {len(ins)} messages reached the editor and {len(rec)} of {sum(map(len, fo))} bytes the server ({mode})", show(c)
        if err:
            return "framing", f"the editor receives badly framed text: {err} ({mode})", show(c)
        if len(fs) != len(ins):
            return "count", f"{len(ins)} messages from the server, {len(fs)} reached the editor ({mode})", show(c)
        if rec != b"".join(fo):
            want = b"".join(fo)
            k = next((k for k in range(min(len(rec), len(want))) if rec[k] != want[k]), min(len(rec), len(want)))
            return "requests", f"what the server receives differs from what the editor sent at byte {k}: {rec[max(0, k - 60):k + 60]!r} instead of {want[max(0, k - 60):k + 60]!r} ({mode})", show(c)
        if ar != args:
            return "args", f"the server is started with {ar} instead of {args}", show(c)
        if st != 0:
            return "status", f"the proxy exits with {st} ({mode})", show(c)
        for (m, info), src, got in zip(ins, fi, fs):
            w = compare(m, info, src, got, bool(env["WHIPPYUNITS_VERBOSE"]), False)
            if w:
                return w[0], w[1], show(c)
        return False if len(fi) + len(fo) < 2 else None

    ck.explore("streams", case(), oracle, vlib.tier(2400, 24000), sample=show, key=lambda c: repr((c[1], c[2], c[3], [[len(x) for x in s[1]] for s in c[4]])))
    shutil.rmtree(base, ignore_errors=True)
    ck.assumptions.append("numbers above 2^53 and floats whose shortest form differs are not generated in messages that the proxy rewrites")
    return ck.finish()
