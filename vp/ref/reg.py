REF = {}


def R(*paths):
    def deco(f):
        for p in paths:
            assert p not in REF, p
            REF[p] = f
        return f
    return deco
