"""Python twin of the TLA+ recursion, used only for harness self tests."""
from zp import P


def step(ode, T, x, u, t, h):
    K = []
    zs = []
    for i in range(T["s"]):
        acc = [sum(T["A"][i][j] * K[j][q] for j in range(i)) % P for q in range(ode.n)]
        z = x + acc + [(t + h * T["c"][i]) % P] + u + [h, T["A"][i][i]]
        z = [a * b for a, b in zip(z, ode.mask)]
        zs.append(z)
        K.append(ode.f(z))
    x1 = [(x[q] + h * sum(T["b"][i] * K[i][q] for i in range(T["s"]))) % P for q in range(ode.n)]
    return x1, (t + h) % P, K, zs


def jac_fwd(ode, z, dz):
    dk = []
    for j in range(ode.n):
        g = ode.jrow(j, z)
        dk.append((sum(a * b for a, b in zip(g[:-2], dz[:-2])) + sum(ode.L[j][l] * dk[l] for l in range(j))) % P)
    return dk


def jac_rev(ode, z, bk):
    bk = list(bk)
    bz = [0] * ode.nz
    for j in reversed(range(ode.n)):
        g = ode.jrow(j, z)
        for i in range(ode.nz):
            bz[i] = (bz[i] + g[i] * bk[j]) % P
        for l in range(j):
            bk[l] = (bk[l] + ode.L[j][l] * bk[j]) % P
    return bz


def fwd(ode, T, zs, dx, du, dt, h):
    dK = []
    for i in range(T["s"]):
        acc = [sum(T["A"][i][j] * dK[j][q] for j in range(i)) % P for q in range(ode.n)]
        dz = dx + acc + [dt] + du + [0, 0]
        dz = [a * b for a, b in zip(dz, ode.mask)]
        dK.append(jac_fwd(ode, zs[i], dz))
    return [(dx[q] + h * sum(T["b"][i] * dK[i][q] for i in range(T["s"]))) % P for q in range(ode.n)], dt


def rev(ode, T, zs, bx, bu, bt, h):
    n = ode.n
    bK = [[h * T["b"][i] * bx[q] % P for q in range(n)] for i in range(T["s"])]
    bx, bu = list(bx), list(bu)
    for i in reversed(range(T["s"])):
        bz = [a * b for a, b in zip(jac_rev(ode, zs[i], bK[i]), ode.mask)]
        bx = [(a + b) % P for a, b in zip(bx, bz[:n])]
        for j in range(i):
            bK[j] = [(a + T["A"][i][j] * b) % P for a, b in zip(bK[j], bz[n:2*n])]
        bt = (bt + bz[2 * n]) % P
        bu = [(a + b) % P for a, b in zip(bu, bz[2*n+1:2*n+1+ode.m])]
    return bx, bu, bt
