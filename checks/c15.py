import ints


def run(ctx):
    ints.design(ctx, ['noextend'])
    ints.traces(ctx, "cmp")
