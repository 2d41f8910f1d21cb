"""
Reference lexer of the documented grammars.

It returns the list of tokens of a text, each the set of kinds it can be read as, or
None if the text is not a sequence of tokens. With 'lax', a keyword can also be read
as the name of an atom.
"""
from . import text as txt

HEAD = set("abcdefghijklmnopqrstuvwxyz_")
BODY = HEAD | set("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")

OPERATORS = {
    "pl": {"<->": "<->", "->": "->", ">>": "->", "||": "|", "|": "|", "&&": "&", "&": "&", "!": "!", "~": "!",
           "(": "(", ")": ")"},
}
OPERATORS["ltl"] = OPERATORS["pltl"] = OPERATORS["pl"]
OPERATORS["ldl"] = dict(OPERATORS["pl"], **{c: c for c in "<>[]+;?*"})
LETTERS = {
    "pl": (), "ldl": (), "ltl": ("X[!]", "U", "R", "G", "F", "X", "W", "M"), "pltl": ("S", "T", "H", "O", "Y", "Z"),
}


def scan_word(s, i):
    """End of the longest unquoted name that starts at i."""
    j = i + 1
    while j < len(s) and (s[j] in BODY or s[j] == "-"):
        j += 1
    while s[j - 1] == "-":
        j -= 1
    return j


def lex(s, logic, lax=False):
    """Split a text into tokens."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c.isspace():
            i += 1
            continue
        if c in HEAD:
            j = scan_word(s, i)
            word = s[i:j]
            if word in txt.RESERVED[logic]:
                out.append({word, "sym"} if lax else {word})
            else:
                out.append({"sym"})
            i = j
            continue
        if c == '"':
            j = i + 1
            while j < len(s) and 32 <= ord(s[j]) <= 126 and s[j] != '"':
                j += 1
            if j == i + 1 or j == len(s) or s[j] != '"':
                return None
            out.append({"sym"})
            i = j + 1
            continue
        letters = next((o for o in LETTERS[logic] if s.startswith(o, i)), None)
        if letters:
            i += len(letters)
            if i == len(s) or s[i] not in ' "(':
                return None
            out.append({letters})
            continue
        op = next((s[i:i + n] for n in (3, 2, 1) if s[i:i + n] in OPERATORS[logic]), None)
        if op is None:
            return None
        out.append({OPERATORS[logic][op]})
        i += len(op)
    return out
