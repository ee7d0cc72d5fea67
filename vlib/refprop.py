"""Independent reference model of a propeller (blade-element theory with Goldstein/Prandtl induced
angles, Corrigan stall delay + Viterna post-stall polar, Phillips off-axis loads, Stone slipstream).

Consumes the specification of a propeller (see gen.py)."""
import numpy as np
from .refwing import AF_DEFAULT, freestream

PROP_DEFAULTS = dict(pos=[0., 0., 0.], orient=[0., 0.], nodes=100, d=1., hd=None, k=2, rot=1., pitch={"type": "default"},
                     chord={"type": "default"}, motor={}, airfoils=[])


def full_prop(p):
    d = dict(PROP_DEFAULTS)
    d.update(p)
    if d["hd"] is None:
        d["hd"] = 0.1*d["d"]
    return d


def rot_sign(r):
    """+1 counter-clockwise, -1 clockwise (documented: "CCW"/"CW" or 1/0)"""
    if isinstance(r, str):
        return 1. if r.lower() == "ccw" else -1.
    return 1. if r == 1 else -1.


def simpson(y, x):
    """Simpson's rule on a uniform grid; for an even number of points Cartwright-corrected last interval"""
    n = len(y)
    h = (x[-1] - x[0])/(n - 1)
    if n == 1:
        return 0.
    if n == 2:
        return 0.5*h*(y[0] + y[1])

    def odd(z):
        return h/3*(z[0] + z[-1] + 4*z[1:-1:2].sum() + 2*z[2:-1:2].sum())
    if n % 2 == 1:
        return odd(y)
    # last interval from the parabola through the last three points
    return odd(y[:-1]) + h*(5/12*y[-1] + 2/3*y[-2] - 1/12*y[-3])


class Blade:
    """Blade geometry and section properties"""

    def __init__(self, p, data=None):
        p = self.p = full_prop(p)
        d = p["d"]
        n = p["nodes"]
        self.d, self.k, self.n = d, p["k"], n
        z0 = p["hd"]/d
        self.z = z0 + (0.999 - z0)*np.arange(n)/(n - 1)
        self.r = self.z*d/2
        self._polar()
        self._chord()
        self._pitch()
        self._stall()
        th, ga = np.radians(p["orient"])
        self.fwd = np.array([np.cos(th)*np.cos(ga), np.cos(th)*np.sin(ga), -np.sin(th)])
        self.rot = rot_sign(p["rot"])
        self.pos = np.array(p["pos"], dtype=float)

    def _polar(self):
        afs = self.p["airfoils"] or [dict(AF_DEFAULT, pos=None)]
        keys = dict(aL0="alpha_L0", CLa="CL_alpha", CLm="CL_max", C0="CD0", C1="CD0_L", C2="CD0_L2")
        if len(afs) == 1:
            for a, k in keys.items():
                setattr(self, a, np.full(self.n, float(afs[0][k])))
            return
        place = {"root": self.z[0], "tip": self.z[-1]}
        rows = [(place.get(str(f["pos"]).lower(), f["pos"]), f) for f in afs]
        rows.sort(key=lambda t: t[0])
        x = [t[0] for t in rows]
        for a, k in keys.items():
            setattr(self, a, np.interp(self.z, x, [t[1][k] for t in rows]))

    def _chord(self):
        c, z, d = self.p["chord"], self.z, self.d
        t = c["type"]
        if t == "default":
            self.c = 0.075*d*np.sqrt(1 - z*z)
        elif t == "elliptical":
            self.c = c["root"]*np.sqrt(1 - z*z)
        elif t == "linear":
            tip = c.get("tip", c["root"])
            self.c = c["root"] + (tip - c["root"])*(z - z[0])/(z[-1] - z[0])
        else:
            self.c = self.curve(c["table"])*d/2
        self.sig = self.k*self.c/d

    def curve(self, tab):
        from scipy.interpolate import CubicSpline
        tab = np.asarray(tab, dtype=float)
        return CubicSpline(tab[:, 0], tab[:, 1], bc_type="not-a-knot", extrapolate=True)(self.z)

    def _pitch(self):
        p, z = self.p["pitch"], self.z
        t = p["type"]
        if t == "from_file":
            chordline = np.radians(self.curve(p["table"]))
        else:
            kc = {"default": 0.5}.get(t)
            if t == "ratio":
                kc = p["value"]
            if t == "value":
                kc = p["value"]/self.d
            chordline = np.arctan(kc/(np.pi*z))
        # aerodynamic pitch angle = chord line pitch angle - zero lift angle of attack
        self.beta = chordline - self.aL0 + np.radians(p.get("pitch_increment") or 0.)

    def _stall(self):
        cr = self.c/self.r
        ast = self.CLm/self.CLa
        K = (0.1517/cr)**(1/1.084)
        self.ast = ast
        self.dA = ast*(K*cr/0.136 - 1.)
        self.astn = ast + 1.5*self.aL0

    def CL(self, a):
        """Corrigan delayed linear lift blended into Viterna post stall lift"""
        out = np.zeros_like(a)
        CDm = 1.11 + 0.18
        for s, st, clm in ((1, self.ast, self.CLm), (-1, self.astn, self.astn*self.CLa)):
            x = s*a - self.dA
            A2 = (clm - CDm*np.sin(st)*np.cos(st))*np.sin(st)/np.cos(st)**2
            with np.errstate(all="ignore"):
                vit = CDm/2*np.sin(2*x) + A2*np.cos(x)**2/np.sin(x)
                f = 0.5 + 0.5*np.tanh(np.degrees(x - st))
                lin = self.CLa*x
                v = np.where(x < np.radians(2.), lin, (1 - f)*lin + f*vit)
            v = s*(v + self.CLa*self.dA)
            out = np.where((a >= 0) if s > 0 else (a < 0), v, out)
        return out

    def CD(self, a, CL):
        CDm = 1.11 + 0.18
        dp, dn = self.ast + self.dA, -self.ast + self.dA
        pol = lambda c: self.C0 + self.C1*c + self.C2*c*c
        B2p = (pol(dp*self.CLa) - CDm*np.sin(dp)**2)/np.cos(dp)
        B2n = (pol(dn*self.CLa) - CDm*np.sin(-dn)**2)/np.cos(-dn)
        out = pol(CL)
        out = np.where(a >= dp, CDm*np.sin(a)**2 + B2p*np.cos(a), out)
        out = np.where(a <= dn, CDm*np.sin(-a)**2 + B2n*np.cos(-a), out)
        return out

    def CLslope(self, a, h=1e-3):
        return (self.CL(a + h) - self.CL(a - h))/(2*h)

    def kinks(self, a):
        """distance of every section from the branch points of the polar"""
        d1 = np.abs(a - self.dA - np.radians(2))
        d2 = np.abs(-a - self.dA - np.radians(2))
        d3 = np.abs(a - (self.ast + self.dA))
        d4 = np.abs(a - (-self.ast + self.dA))
        return np.minimum.reduce([d1, d2, d3, d4, np.abs(a)])

    def residual(self, J, ei):
        """equilibrium of the section lift and the vortex induced angle"""
        einf = np.arctan2(J, np.pi*self.z)
        a = self.beta - einf - ei
        tipf = np.arccos(np.exp(-self.k*(1 - self.z)/(2*np.sin(self.beta[-1]))))
        return self.sig/(8*self.z)*self.CL(a) - tipf*np.tan(ei)*np.sin(einf + ei)

    def coefficients(self, J, ei):
        z = self.z
        einf = np.arctan2(J, np.pi*z)
        a = self.beta - einf - ei
        cl, cla = self.CL(a), self.CLslope(a)
        cd = self.CD(a, cl)
        e = einf + ei
        x = cl*np.cos(e) - cd*np.sin(e)
        y = cd*np.cos(e) + cl*np.sin(e)
        xs = (cla + cd)
        w = self.sig*np.cos(ei)**2
        ti = np.tan(einf)
        ci2 = np.cos(einf)**2
        R = dict(
            CT=np.pi**2/4*simpson(z**2*w/ci2*x, z),
            Cl=np.pi**2/8*simpson(z**3*w/ci2*y, z),
            CNa=np.pi**2/8*simpson(z**2*w*(2*ti*y - ti**2*(cl*np.cos(e) - xs*np.sin(e))), z),
            Cna=np.pi**2/16*simpson(z**3*w*(2*ti*x + ti**2*(xs*np.cos(e) + cl*np.sin(e))), z),
            alpha=a, CL=cl, CD=cd, einf=einf)
        R["CP"] = 2*np.pi*R["Cl"]
        # magnitude of what was integrated, for tolerances
        R["CTs"] = np.pi**2/4*simpson(np.abs(z**2*w/ci2*(np.abs(cl) + np.abs(cd))), z)
        R["Cls"] = np.pi**2/8*simpson(np.abs(z**3*w/ci2*(np.abs(cl) + np.abs(cd))), z)
        return R

    def induced(self, rps, J, ei):
        einf = np.arctan2(J, np.pi*self.z)
        Vi = 2*np.pi*rps*self.r*np.sin(ei)/np.cos(einf)
        return Vi, Vi*np.cos(ei + einf), Vi*np.sin(ei + einf)

    def loads(self, aero, rps, J, ei, cg):
        """body frame force and moment about the center of gravity"""
        c = self.coefficients(J, ei)
        rho, d = aero["rho"], self.d
        wind = freestream(aero)          # direction the air moves
        head = -wind                     # direction the aircraft moves through the air
        q = rho*rps*rps*d**4
        ang = np.arctan2(np.linalg.norm(np.cross(self.fwd, head)), self.fwd@head)
        # in-plane direction of the normal force: opposite to the part of the air-relative motion in the disk plane
        inpl = head - (head@self.fwd)*self.fwd
        nrm = np.linalg.norm(inpl)
        ndir = -inpl/nrm if nrm > 1e-12 else np.zeros(3)
        N, n = q*c["CNa"]*ang*ndir, q*d*c["Cna"]*ang*ndir
        T, Q = q*c["CT"], q*d*c["Cl"]
        F = T*self.fwd + N
        arm = self.pos - np.array(cg, dtype=float)
        M = np.cross(arm, F) - self.rot*Q*self.fwd + self.rot*n
        c.update(F=F, M=M, T=T, torque=-self.rot*Q, Q=Q, N=N, n=n, ang=ang, inplane=nrm)
        c["fscale"] = abs(q)*c["CTs"] + np.abs(N).sum()
        c["mscale"] = abs(q)*d*c["Cls"] + np.abs(n).sum() + np.linalg.norm(arm)*c["fscale"]
        return c

    def slipstream(self, pts, V, Vx, Vt):
        """Stone's inviscid slipstream at points; returns velocities, immersed mask, distance from discontinuities"""
        rel = pts - self.pos
        s = -(rel@self.fwd)
        radial = rel + s[:, None]*self.fwd
        rad = np.sqrt((radial**2).sum(1))
        R = self.d/2
        vel = np.zeros_like(pts)
        margin = np.minimum(np.abs(rad - R), np.abs(s))/R
        inside = (s > 0) & (rad <= R)
        n0 = int(self.n/10)
        swirl = np.zeros(len(pts))
        for i in np.where(inside)[0]:
            kd = 1 + s[i]/np.hypot(s[i], R)
            rp2 = np.empty(self.n)
            rp2[0] = self.r[0]**2
            vx2 = Vx[1:] + Vx[:-1]
            rp2[1:] = rp2[0] + np.cumsum((self.r[1:]**2 - self.r[:-1]**2)*(2*V + vx2)/(2*V + kd*vx2))
            if not (rp2 > 0).all() or not (np.diff(rp2) > 0).all():
                margin[i] = 0.           # folded streamtube: interpolation is not defined
                continue
            rp = np.sqrt(rp2)
            vt = 2*Vt*self.r/rp
            if n0:
                vt[:n0] = vt[n0]/rp[n0]*rp[:n0]
            margin[i] = min(margin[i], abs(rad[i] - rp[0])/R, abs(rad[i] - rp[-1])/R)
            if rp[0] <= rad[i] <= rp[-1]:
                ax = np.interp(rad[i], rp, Vx*kd)
                tg = np.interp(rad[i], rp, vt)
                tdir = np.cross(self.fwd, radial[i]/rad[i]) if rad[i] > 0 else np.zeros(3)
                vel[i] = -self.fwd*ax + self.rot*tg*tdir
                swirl[i] = tg
        return vel, inside, margin


def motor_torque(m, thr, rps, units):
    N = rps*60.
    ns = 1 - 0.079*(1 - thr)
    I = (ns*thr*m["battery_voltage"] - m["gear_reduction"]/m["motor_kv"]*N)/(
        ns*thr*m["battery_resistance"] + m["speed_control_resistance"] + m["motor_resistance"])
    q = 7.0432*m["gear_reduction"]/m["motor_kv"]*(I - m["motor_no_load_current"])
    return q if units == "English" else q*1.3558179483314
