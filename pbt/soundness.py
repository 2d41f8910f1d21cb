"""Soundness of accepted proofs: shared by C15 and C16."""
from . import models, nd
from .core import dumps, require


def check(case, first_order):
    """If the proof is accepted, each line follows from the premises and the open assumptions it stands on."""
    logic, lines = case["logic"], case["proof"]
    verdict = nd.check(lines, logic)
    labels = ["accepted" if verdict else "rejected"]
    rules = sorted({line[3] for line in nd.lines_of(lines) if line[0] == "f"} - {"premise", "assumption"})
    if verdict is not True:
        return False, labels
    families = models.families(list(nd.formulas(lines)), first_order, (1, 2, 3) if case.get("deep") else (1, 2))
    held = {}

    def holds(family, f):
        k = (id(family), dumps(f))
        if k not in held:
            held[k] = family.holds(f)
        return held[k]

    for line, given in nd.judgements(lines):
        for family in families:
            mask = family.all
            for g in given:
                mask &= holds(family, g)
            counter = mask & ~holds(family, line[2])
            if counter:
                index = (counter & -counter).bit_length() - 1
                require(
                    False,
                    "{}\n  is accepted, but row {}, {} by {}, does not follow from {}\n  countermodel: {}", dumps(lines),
                    line[1], dumps(line[2]), line[3], dumps(given), dumps(family.model(index)),
                )
    boxes = any(line[0] == "b" for line in nd.lines_of(lines))
    labels += ["accepted with %s" % r for r in rules]
    labels += ["accepted with a box"] * boxes
    labels += ["all the models with %d elements" % f.n for f in families if f.exhaustive and first_order]
    return bool(rules), labels
