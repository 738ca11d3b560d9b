import ints


def run(ctx):
    ints.design(ctx, [])
    ints.traces(ctx, "conv")
