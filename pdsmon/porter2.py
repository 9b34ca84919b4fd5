"""The English (Porter2) stemming algorithm, written from its published description."""
V = set("aeiouy")
EXC1 = {"skis": "ski", "skies": "sky", "dying": "die", "lying": "lie", "tying": "tie", "idly": "idl", "gently": "gentl",
        "ugly": "ugli", "early": "earli", "only": "onli", "singly": "singl"}
INV = {"sky", "news", "howe", "atlas", "cosmos", "bias", "andes"}
EXC2 = {"inning", "outing", "canning", "herring", "earring", "proceed", "exceed", "succeed"}
S2 = {"tional": "tion", "enci": "ence", "anci": "ance", "abli": "able", "entli": "ent", "izer": "ize", "ization": "ize",
      "ational": "ate", "ation": "ate", "ator": "ate", "alism": "al", "aliti": "al", "alli": "al", "fulness": "ful",
      "ousli": "ous", "ousness": "ous", "iveness": "ive", "iviti": "ive", "biliti": "ble", "bli": "ble", "ogi": "og",
      "fulli": "ful", "lessli": "less", "li": ""}
S3 = {"tional": "tion", "ational": "ate", "alize": "al", "icate": "ic", "iciti": "ic", "ical": "ic", "ful": "", "ness": "", "ative": ""}
S4 = ["al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ism", "ate", "iti", "ous", "ive", "ize", "ion"]


def longest(w, sufs):
    c = [s for s in sufs if w.endswith(s)]
    return max(c, key=len) if c else None


def short_end(w):
    """does w end in a short syllable"""
    if len(w) >= 3 and w[-3] not in V and w[-2] in V and w[-1] not in V and w[-1] not in "wxY":
        return True
    return len(w) == 2 and w[0] in V and w[1] not in V


def region(w, start):
    for i in range(start + 1, len(w)):
        if w[i] not in V and w[i - 1] in V:
            return i + 1
    return len(w)


def stem(w):
    if w in EXC1:
        return EXC1[w]
    if w in INV or len(w) < 3:
        return w
    if w[0] == "'":
        w = w[1:]
    t = []
    for i, c in enumerate(w):
        t.append("Y" if c == "y" and (i == 0 or t[-1] in V) else c)
    w = "".join(t)
    p1 = next((len(p) for p in ("gener", "commun", "arsen") if w.startswith(p)), None)
    if p1 is None:
        p1 = region(w, 0)
    p2 = region(w, p1) if p1 < len(w) else len(w)
    # 1a
    s = longest(w, ["'", "'s", "'s'"])
    if s:
        w = w[:-len(s)]
    s = longest(w, ["sses", "ied", "ies", "us", "ss", "s"])
    if s == "sses":
        w = w[:-2]
    elif s in ("ied", "ies"):
        w = w[:-2] if len(w) - 3 > 1 else w[:-1]
    elif s == "s" and any(c in V for c in w[:-2]):
        w = w[:-1]
    if w in EXC2:
        return w.replace("Y", "y")
    # 1b
    s = longest(w, ["eed", "eedly", "ed", "edly", "ing", "ingly"])
    if s in ("eed", "eedly"):
        if len(w) - len(s) >= p1:
            w = w[:-len(s)] + "ee"
    elif s and any(c in V for c in w[:-len(s)]):
        w = w[:-len(s)]
        if w.endswith(("at", "bl", "iz")):
            w += "e"
        elif w.endswith(("bb", "dd", "ff", "gg", "mm", "nn", "pp", "rr", "tt")):
            w = w[:-1]
        elif len(w) == p1 and short_end(w):
            w += "e"
    # 1c
    if w and w[-1] in "yY" and len(w) > 2 and w[-2] not in V:
        w = w[:-1] + "i"
    # 2
    s = longest(w, S2)
    if s and len(w) - len(s) >= p1:
        b = w[:-len(s)]
        if s == "ogi":
            w = b + "og" if b.endswith("l") else w
        elif s == "li":
            w = b if b and b[-1] in "cdeghkmnrt" else w
        else:
            w = b + S2[s]
    # 3
    s = longest(w, S3)
    if s and len(w) - len(s) >= p1 and (s != "ative" or len(w) - len(s) >= p2):
        w = w[:-len(s)] + S3[s]
    # 4
    s = longest(w, S4)
    if s and len(w) - len(s) >= p2:
        b = w[:-len(s)]
        if s != "ion" or b.endswith(("s", "t")):
            w = b
    # 5
    if w.endswith("e"):
        b = w[:-1]
        if len(b) >= p2 or (len(b) >= p1 and not short_end(b)):
            w = b
    elif w.endswith("l") and len(w) - 1 >= p2 and w.endswith("ll"):
        w = w[:-1]
    return w.replace("Y", "y")
