"""Per-property run configuration of check.py."""
def p(secs=25, thorough=420, **kw):
    d = {"quick": {"secs": secs}, "thorough": {"secs": thorough}}
    d.update(kw)
    return d

PROPS = {
    "C01": p(),
    "C02": p(),
    "C03": p(),
    "C04": p(),
    "C05": p(deterministic=True, needs_std=True),
    "C06": p(),
    "C07": p(),
    "C08": p(),
    "C09": p(),
    "C10": p(),
    "C11": p(),
    "C12": p(),
    "C13": p(),
    "C14": p(),
    "C15": p(),
    "C16": p(),
    "C17": p(),
    "C18": p(),
    "C19": p(),
    "C20": p(),
    "C21": p(),
    "C22": p(),
    "C23": p(),
    "C24": p(cli=True),
    "C25": p(),
    "C26": p(),
    "C27": p(),
    "C28": p(),
    "C29": p(),
    "C30": p(),
    "C31": p(),
}
