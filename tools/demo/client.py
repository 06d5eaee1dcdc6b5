"""A small language client for the demonstrations."""
import json, os, subprocess, sys, threading, queue

WORKER = r'''
import sys, json, os
def rd():
    n = 0
    while True:
        l = sys.stdin.buffer.readline()
        if not l: sys.exit(0)
        l = l.strip()
        if not l: break
        if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
    return json.loads(sys.stdin.buffer.read(n))
A = json.loads(os.environ.get("DEMO_ANSWERS", "{}"))
while True:
    m = rd()
    if m.get("method") == "exit": sys.exit(0)
    if "id" not in m: continue
    r = A.get(m["method"] + " " + json.dumps(m.get("params"), sort_keys=True), A.get(m["method"]))
    b = json.dumps({"jsonrpc": "2.0", "id": m["id"], "result": r}).encode()
    sys.stdout.buffer.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
    sys.stdout.buffer.flush()
'''

class Client:
    def __init__(self, server, answers=None, args=(), worker=None):
        w = os.path.abspath("worker.py")
        open(w, "w").write("#!/usr/bin/env python3\n" + (worker or WORKER))
        os.chmod(w, 0o755)
        env = dict(os.environ, NIXD_ATTRSET_EVAL=w, DEMO_ANSWERS=json.dumps(answers or {}))
        self.p = subprocess.Popen([server, "--log=error", *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        self.q = queue.Queue()
        self.n = 0
        self.notes = []
        self.asked = []
        self.config = None
        threading.Thread(target=self.reader, daemon=True).start()

    def reader(self):
        f = self.p.stdout
        while True:
            n = None
            while True:
                l = f.readline()
                if not l:
                    self.q.put(None)
                    return
                if not l.strip():
                    break
                if l.lower().startswith(b"content-length:"):
                    n = int(l.split(b":")[1])
            self.q.put(json.loads(f.read(n)))

    def write(self, m):
        b = json.dumps(m).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()

    def notify(self, method, params):
        self.write({"jsonrpc": "2.0", "method": method, "params": params})

    def take(self, timeout=10):
        m = self.q.get(timeout=timeout)
        if m is None:
            raise EOFError("the server ended")
        if "method" in m:
            self.notes.append(m)
            if "id" in m:
                self.asked.append(m)
                r = None
                if m["method"] == "workspace/configuration":
                    r = [self.config]
                elif m["method"] == "window/showDocument":
                    r = {"success": True}
                self.write({"jsonrpc": "2.0", "id": m["id"], "result": r})
        return m

    def message(self, method, params, timeout=10):
        self.n += 1
        i = self.n
        self.write({"jsonrpc": "2.0", "id": i, "method": method, "params": params})
        while True:
            m = self.take(timeout)
            if "method" not in m and m.get("id") == i:
                return m

    def request(self, method, params, timeout=10):
        return self.message(method, params, timeout).get("result")

    def initialize(self, caps=None):
        r = self.request("initialize", {"processId": os.getpid(), "rootUri": None, "capabilities": caps or {}})
        self.notify("initialized", {})
        return r

    def open(self, text, uri="file:///base/t.nix", version=1):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "nix", "version": version, "text": text}})

    def at(self, line, ch, uri="file:///base/t.nix"):
        return {"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}}

    def diagnostics(self, uri="file:///base/t.nix"):
        """those published last"""
        self.request("textDocument/documentSymbol", {"textDocument": {"uri": uri}})
        r = None
        for m in self.notes:
            if m["method"] == "textDocument/publishDiagnostics" and m["params"]["uri"] == uri:
                r = m["params"]["diagnostics"]
        return r

    def actions(self, a, b=None, uri="file:///base/t.nix", only=None):
        b = b or a
        c = {"diagnostics": []}
        if only is not None:
            c["only"] = only
        return self.request("textDocument/codeAction", {"textDocument": {"uri": uri}, "range": {"start": {"line": a[0], "character": a[1]}, "end": {"line": b[0], "character": b[1]}}, "context": c})

    def action(self, text, title, a, b=None):
        """the text after the action, or None if it is not offered"""
        for x in self.actions(a, b):
            if x["title"].startswith(title):
                return apply(text, edits(x))
        return None


def edits(action, uri="file:///base/t.nix"):
    e = action["edit"]
    if e.get("changes"):
        return e["changes"].get(uri, [])
    return [y for x in e.get("documentChanges", []) if "edits" in x and x["textDocument"]["uri"] == uri for y in x["edits"]]


def apply(text, es):
    def off(p):
        ls = text.split("\n")
        o = sum(len(x) + 1 for x in ls[: p["line"]])
        u = ls[p["line"]].encode("utf-16-le")[: 2 * p["character"]]
        return o + len(u.decode("utf-16-le"))
    for e in sorted(es, key=lambda e: -off(e["range"]["start"])):
        text = text[: off(e["range"]["start"])] + e["newText"] + text[off(e["range"]["end"]):]
    return text


bad = 0


def expect(c, what):
    global bad
    if not c:
        bad = 1
        print("FAILED:", what, file=sys.stderr)


def done():
    sys.stdout.flush()
    os._exit(bad)
