"""The data sets of the Python world, as plain lists."""
import random
def rows(o):
    r = random.Random(o["seed"]); n, x, y = o["n"], o["x"], o["y"]; X, Y = [], []; grid = o.get("grid") == "int"; k = o.get("kind", "reg")
    for _ in range(n):
        v = [r.randint(0, 1) if grid else r.randint(0, 255) / 256 for _ in range(x)]; s = sum((j + 1) * t for j, t in enumerate(v)); X.append(v)
        if k == "onehot": c = int(s * 7) % y; Y.append([int(j == c) for j in range(y)])
        elif grid: Y.append([(int(s) + j) % 2 for j in range(y)])
        elif k == "const": Y.append([0.5] * y)
        else: Y.append([int(((s * (j + 3)) % 1.0) * 256) / 256 for j in range(y)])
    return X, Y
