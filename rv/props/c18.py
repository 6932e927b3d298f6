"""C18: GPS / UTC time."""
import calendar
import json
import os
import subprocess
import sys
import numpy as np
from rv.core import Registry, VERIF, REPO
from resippy.utils import time_utils as tu

P = Registry("C18", "UTC instants from 1980-01-06 to 2037, concentrated within a minute of every leap second and of "
                    "week rollovers, evaluated in this process and in child processes running under many time zones; "
                    "the monitor uses its own leap second table.", boost=6)

LEAPS = [calendar.timegm((y, m, 1, 0, 0, 0)) for y, m in (
    (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7),
    (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1))]
EPOCH = calendar.timegm((1980, 1, 6, 0, 0, 0))
END = calendar.timegm((2037, 1, 1, 0, 0, 0))
WEEK = 604800
ZONES = ["UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Pacific/Kiritimati",
         "Australia/Lord_Howe", "America/St_Johns", "Asia/Tokyo", "Africa/Monrovia", "XXX-5:30", "YYY+11:15",
         "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3"]


def gps_of(u):
    return u - EPOCH + sum(1 for b in LEAPS if u >= b)


def instants(r, n):
    out = []
    for _ in range(n):
        k = int(r.integers(0, 5))
        if k == 0:
            u = float(r.uniform(EPOCH, END))
        elif k == 1:
            u = float(int(r.choice(LEAPS)) + r.uniform(-60, 60))
        elif k == 2:
            u = float(int(r.choice(LEAPS)) + int(r.integers(-25, 25)))
        elif k == 3:
            w = int(r.integers(0, 2900))
            g = w * WEEK + int(r.integers(-3, 4))
            u = float(EPOCH + max(g, 0))
            u -= sum(1 for b in LEAPS if u >= b)
            u = max(u, float(EPOCH))
        else:
            u = float(int(r.choice(LEAPS)) + r.uniform(-86400, 86400))
        out.append(u)
    return out


def verify(ctx, us, got, zone):
    g2u_in = [gps_of(u) for u in us]
    for u, g, b, w in zip(us, got["utc2gps"], got["gps2utc"], got["week"]):
        ctx.close("utc-to-gps", g, gps_of(u), "GPS time of a UTC instant (zone %s)" % zone, atol=2e-6, rtol=0, utc=u)
        ctx.close("gps-to-utc", b, u, "UTC instant of a GPS time (zone %s)" % zone, atol=2e-6, rtol=0, utc=u)
        ctx.check("gps-week", isinstance(w[0], int) or float(w[0]).is_integer(), "week is not an integer")
        ctx.close("gps-week", w[0] * WEEK + w[1], gps_of(u), "week and seconds do not add up (zone %s)" % zone,
                  atol=5e-6, rtol=0, utc=u)
        ctx.check("gps-week", -1e-6 <= w[1] <= WEEK, "seconds of week outside [0, 604800]", utc=u, got=w)
    return g2u_in


@P.scenario(quick=60, thorough=1500, monitors=("utc-to-gps", "gps-to-utc", "gps-week", "order"))
def in_process(ctx):
    us = sorted(instants(ctx.rng, 60))
    ctx.given(utc=np.array(us))
    gs = [gps_of(u) for u in us]
    got = {"utc2gps": [ctx.call(tu.utc_timestamp_to_gps_timestamp, u) for u in us],
           "gps2utc": [ctx.call(tu.gps_timestamp_to_utc_timestamp, g) for g in gs],
           "week": [list(ctx.call(tu.utc_timestamp_to_gps_week_and_seconds, u)) for u in us]}
    verify(ctx, us, got, "process")
    for u0, u1, g0, g1 in zip(us, us[1:], got["utc2gps"], got["utc2gps"][1:]):
        ctx.check("order", g1 - g0 >= (u1 - u0) - 1e-5, "GPS time does not advance at least as much as UTC",
                  u0=u0, u1=u1)


@P.scenario(quick=28, thorough=140, monitors=("utc-to-gps", "gps-to-utc", "gps-week"))
def any_time_zone(ctx):
    zone = ZONES[ctx.index % len(ZONES)]
    us = instants(ctx.rng, 150)
    ctx.given(zone=zone, utc=np.array(us))
    ctx.cover(zone)
    env = dict(os.environ, TZ=zone)
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "rv", "tz_probe.py"), REPO],
                       input=json.dumps({"utc": us, "gps": [gps_of(u) for u in us]}), capture_output=True, text=True,
                       env=env, timeout=100)
    ctx.event("time_utils under TZ")
    ctx.check("utc-to-gps", p.returncode == 0, "conversion failed: " + p.stderr[-400:])
    verify(ctx, us, json.loads(p.stdout), zone)


@P.scenario(quick=len(LEAPS), thorough=len(LEAPS), monitors=("utc-to-gps", "gps-to-utc"))
def each_leap_second(ctx):
    """Every leap second is inserted at its instant, for every second around it."""
    b = LEAPS[ctx.index % len(LEAPS)]
    ctx.given(leap=b)
    ctx.cover(b)
    for d in list(range(-40, 41)) + [-0.5, 0.5, -0.001, 0.001, -18.25, 18.25]:
        u = b + d
        ctx.close("utc-to-gps", ctx.call(tu.utc_timestamp_to_gps_timestamp, u), gps_of(u), "around a leap second",
                  atol=2e-6, rtol=0, utc=u)
        ctx.close("gps-to-utc", ctx.call(tu.gps_timestamp_to_utc_timestamp, gps_of(u)), u, "around a leap second",
                  atol=2e-6, rtol=0, utc=u)
