import ints


def run(ctx):
    ints.design(ctx, ['borrow'])
    ints.traces(ctx, "ring")
