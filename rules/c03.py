from . import sentences

RULE = {
    "C01": "abstract interpretation of treeno's conversion over every alternative of the grammar: the outcome of each derivation is a tree holding all of its leaves and keywords, or a deliberate refusal",
    "C02": "abstract interpretation of treeno's conversion over every alternative of the grammar: the neutral form of the resulting tree equals the neutral form of the derivation, operand by operand and clause by clause",
    "C03": "abstract interpretation of conversion and rendering over every alternative of the grammar: the rendered template, lexed and parsed with the grammar, has the neutral form of the original derivation",
}


def run(rep, thorough):
    sentences.run(rep.pid, rep, thorough)
    return RULE[rep.pid]
