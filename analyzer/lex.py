"""Literals of Rust source text."""
import re

TOKEN = re.compile(r'''
    (?P<line>//[^\n]*) | (?P<block>/\*.*?\*/)
  | b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)
  | b?"(?P<str>(?:[^"\\]|\\.)*)"
  | b?'(?P<chr>[^'\\\n]|\\(?:[nrt0\\'"]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))'
  | '[A-Za-z_]\w*
  | [A-Za-z_]\w*
''', re.X | re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] == "u":
            return chr(int(x[2:-1].replace("_", ""), 16))
        if x[0] == "\n":
            return ""
        return ESC.get(x[0], x)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", f, s, flags=re.S)


def literals(text):
    out = []
    for m in TOKEN.finditer(text):
        if m.group("raw") is not None:
            out.append(m.group("raw"))
        elif m.group("str") is not None:
            out.append(unescape(m.group("str")))
        elif m.group("chr") is not None:
            out.append(unescape(m.group("chr")))
    return out
