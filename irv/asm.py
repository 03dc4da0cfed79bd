"""Inline assembly.  Prefetches and no-operation sequences have no effect; anything else is handed to the kernel
interpreter (kasm) where one is registered, and is otherwise out of reach."""
import re
from .exec import Undecided

NOEFFECT = re.compile(r"^(nop|prfm\s+\w+,\s*\[[^\]]*\]|pld\s+\[[^\]]*\])$")


def lines(text):
    t = text.replace("\\0A", "\n").replace("\\09", "\t").replace(";", "\n")
    return [x.strip() for x in t.split("\n") if x.strip()]


def no_effect(v):
    text = v if isinstance(v, str) else v[0]
    if not all(NOEFFECT.match(l) for l in lines(text)):
        raise Undecided("inline assembly: " + text[:80])


def call_asm(en, st, I, v):
    text = v if isinstance(v, str) else v[0]
    if all(NOEFFECT.match(l) for l in lines(text)):
        return [(st, None)]
    if getattr(en, "kasm", None) is not None:
        from . import kasm
        return kasm.run_asm(en, st, I, v, en.kasm)
    raise Undecided("inline assembly: " + text[:80])
