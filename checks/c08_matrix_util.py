"""Rotation and pose helpers of the scripting layer agree with the textbook
definitions on a complete grid of angles, quaternions and shapes."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import mcpy  # noqa: E402
import numpy as np  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PATH = os.path.join(REPO, "src/dynamic_graph/sot/core/matrix_util.py")
NS = {"__name__": "matrix_util"}
exec(compile(open(PATH).read(), PATH, "exec"), NS)


def rx(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def ry(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def rz(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def hom(R, t=(0, 0, 0)):
    M = np.eye(4)
    M[:3, :3], M[:3, 3] = R, t
    return M


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def angles(c):
    step = 5 if c.thorough else 15
    n = 360 // step
    return [math.radians(step) * (i - n // 2 + 1) for i in range(n)]


def euler(c):
    A = angles(c)
    r, p, y = A[c.choose(len(A), "roll")], A[c.choose(len(A), "pitch")], A[c.choose(len(A), "yaw")]
    c.op(lambda: "roll %.4f pitch %.4f yaw %.4f" % (r, p, y))
    R = rz(y) @ ry(p) @ rx(r)
    T = NS["rpy2tr"](r, p, y)
    c.expect(isinstance(T, tuple) and all(isinstance(x, tuple) for x in T), "type", "rpy2tr does not give tuples")
    c.expect(close(T, hom(R)), "rpy2tr", lambda: "rpy2tr(%r, %r, %r) is %r" % (r, p, y, T))
    t = (0.5, -2.0, 3.25)
    M = NS["RPYToMatrix"]((t[0], t[1], t[2], r, p, y))
    c.expect(close(M, hom(R, t)), "RPYToMatrix", lambda: "pose %r %r gives %r" % (t, (r, p, y), M))
    # back: angles of the same rotation, pitch within [-pi/2, pi/2]
    v = NS["matrixToRPY"](M)
    c.expect(len(v) == 6 and close(v[:3], t), "matrixToRPY", lambda: "translation lost: %r" % (v,))
    back = rz(v[5]) @ ry(v[4]) @ rx(v[3])
    c.expect(close(back, R, 2e-3 if abs(abs(v[4]) - math.pi / 2) < 2e-3 else 1e-7) and abs(v[4]) <= math.pi / 2 + 1e-9, "matrixToRPY",
             lambda: "roll %r pitch %r yaw %r comes back as %r, another rotation" % (r, p, y, v[3:]))
    w = NS["tr2rpy"](tuple(map(tuple, M)))
    c.expect(close([w[2], w[1], w[0]], v[3:]), "tr2rpy", "tr2rpy and matrixToRPY differ")
    c.observe(tuple(round(x, 6) for x in v))
    c.state((round(r, 4), round(p, 4), round(y, 4)))


def singular(c):
    """close to the singularity: the two formulas take over from one another"""
    D = [0, 1e-12, 1e-8, 1e-5, 4e-4, 9.9e-4, 1.01e-3, 5e-3, 0.1]
    s = c.pick((1, -1), "side")
    d = D[c.choose(len(D), "distance")]
    A = [math.radians(30 * i) for i in range(-5, 7)]
    r, y = A[c.choose(12, "roll")], A[c.choose(12, "yaw")]
    p = s * (math.pi / 2 - d)
    c.op(lambda: "roll %r pitch %r yaw %r" % (r, p, y))
    R = rz(y) @ ry(p) @ rx(r)
    v = NS["matrixToRPY"](hom(R))
    back = rz(v[5]) @ ry(v[4]) @ rx(v[3])
    c.expect(close(back, R, 4e-3), "matrixToRPY", lambda: "pitch %r roll %r yaw %r comes back as %r" % (p, r, y, v[3:]))
    c.state((s, d, r, y))
    c.observe(tuple(round(x, 6) for x in v))


def rotate(c):
    A = angles(c)
    ax = c.pick("xyz", "axis")
    a, b = A[c.choose(len(A), "a")], A[c.choose(len(A), "b")]
    c.op(lambda: "rotate %s %r %r" % (ax, a, b))
    f = dict(x=rx, y=ry, z=rz)[ax]
    c.expect(close(NS["rotate"](ax, a), hom(f(a))), "rotate", lambda: "rotation of %r about %s is wrong" % (a, ax))
    c.expect(close(np.array(NS["rotate"](ax, a)) @ np.array(NS["rotate"](ax, b)), NS["rotate"](ax, a + b)), "compose", "rotations about one axis do not add up")
    c.state((ax, round(a, 4), round(b, 4)))
    c.observe((ax, round(a + b, 4)))


def quat(c):
    g = range(-3, 4) if c.thorough else range(-2, 3)
    q = np.array([c.pick(g, "x"), c.pick(g, "y"), c.pick(g, "z"), c.pick(g, "w")], float)
    n = np.linalg.norm(q)
    if n == 0:
        c.prune()
    q = q / n
    c.op(lambda: "quaternion %r" % (q,))
    R = np.array(NS["quaternionToMatrix"](list(q)))
    v, w = q[:3], q[3]
    for e in np.eye(3):
        want = e + 2 * np.cross(v, np.cross(v, e) + w * e)
        c.expect(close(R @ e, want), "quaternion", lambda: "quaternion %r does not rotate %r as q v q*" % (q, e))
    c.expect(close(NS["quaternionToMatrix"](list(-q)), R), "quaternion", "q and -q give two rotations")
    c.state(tuple(np.round(q, 6)))
    c.observe(tuple(np.round(R.ravel(), 6)))


def ortho(c):
    g = (-1.0, 0.0, 2.0) if not c.thorough else (-1.0, 0.0, 2.0, 0.3)
    v1 = [c.pick(g, "v1") for _ in range(3)]
    if not any(v1):
        c.prune()
    D = (0.0, 0.25, 0.9)
    draws = []

    def draw():
        # draws after the third are not needed by every implementation
        x = c.pick(D, "random") if len(draws) < 3 else D[(len(draws) * 2 + 1) % 3]
        draws.append(x)
        return x
    old, NS["random"] = NS["random"], draw
    try:
        # an implementation may draw less or more numbers
        with np.errstate(all="ignore"):
            M = NS["generateOrthonormalM"](v1)
    finally:
        NS["random"] = old
    if len(draws) >= 3 and np.linalg.norm(np.cross(v1, draws[:3])) < 1e-6:
        c.prune()   # the random vector is parallel to the given one
    M = np.array(M)
    c.op(lambda: "v1 %r draws %r" % (v1, draws))
    c.expect(M.shape == (3, 3) and close(M.T @ M, np.eye(3)), "orthonormal", lambda: "first column %r, draws %r: %r is not orthonormal" % (v1, draws, M))
    c.expect(close(M[:, 0], np.array(v1) / np.linalg.norm(v1)), "first-column", lambda: "the first column of %r is not %r" % (M, v1))
    c.expect(abs(np.linalg.det(M) - 1) < 1e-9, "rotation", lambda: "first column %r, draws %r: determinant %r" % (v1, draws, np.linalg.det(M)))
    c.state((tuple(v1), tuple(draws)))
    c.observe(tuple(np.round(M.ravel(), 6)))


def shapes(c):
    rows, cols = 1 + c.choose(5, "rows"), 1 + c.choose(5, "columns")
    kind = c.pick(("array", "matrix"), "kind")
    a = np.arange(rows * cols, dtype=float).reshape(rows, cols) - 3.5
    m = a if kind == "array" else np.matrix(a)
    c.op("%s %dx%d" % (kind, rows, cols))
    t = NS["matrixToTuple"](m)
    c.expect(t == tuple(tuple(float(x) for x in r) for r in a) and isinstance(t, tuple), "matrixToTuple", lambda: "%r gives %r" % (a, t))
    if rows == 1 or cols == 1:
        v = NS["vectorToTuple"](m)
        c.expect(v == tuple(a.ravel()), "vectorToTuple", lambda: "%r gives %r" % (m, v))
    if rows == 1:
        c.expect(NS["vectorToTuple"](a.ravel()) == tuple(a.ravel()), "vectorToTuple", "vector changed")
    g = (-1.0, 0.0, 2.5)
    A, B = hom(np.eye(3), [c.pick(g) for _ in range(3)]), hom(rz(1.0), [c.pick(g) for _ in range(3)])
    d = NS["distVector"](A, B)
    c.expect(close(d, B[:3, 3] - A[:3, 3]), "distVector", lambda: "the difference is %r" % (d,))
    c.state((rows, cols, kind))
    c.observe((rows, cols, tuple(d)))


sys.exit(mcpy.main("C08", [
    mcpy.Suite("euler", euler, "every roll, pitch, yaw on a grid of 15 degrees (thorough 5), both singularities included"),
    mcpy.Suite("singular", singular, "2 singularities x 9 distances x 12 x 12 angles"),
    mcpy.Suite("rotate", rotate, "3 axes x every pair of angles on the grid"),
    mcpy.Suite("quaternion", quat, "every integer quaternion of [-2,2]^4 (thorough [-3,3]^4), normalized", split=2),
    mcpy.Suite("orthonormal", ortho, "every first vector of a 3-value grid x every draw of a 3-value random source", split=3),
    mcpy.Suite("shapes", shapes, "shapes up to 5x5, arrays and matrices, 3^6 pairs of translations", split=3),
]))
