from c06 import correctness


def run(ctx):
    correctness(ctx, 'pf')
