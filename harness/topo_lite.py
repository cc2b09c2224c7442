# -*- coding: utf-8 -*-
"""dof carriers without numpy (driver side)"""


def flags(nd, k, kind):
    """per component: 1 where the carrier is nodal along the axis, 0 where it is an edge"""
    if k == 0:
        return [(1,) * nd]
    if k == nd:
        return [(0,) * nd]
    if nd == 3:
        return [(0, 1, 1), (1, 0, 1), (1, 1, 0)] if k == 1 else [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    return [(0, 1), (1, 0)] if kind == 'inner' else [(1, 0), (0, 1)]
