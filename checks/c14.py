import ints


def run(ctx):
    ints.design(ctx, ['nooverflow', 'divsign'])
    ints.traces(ctx, "div")
