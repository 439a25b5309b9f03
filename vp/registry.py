"""The checks there are."""
from . import api, wire, held, framing, reasm, acker, dispatch, hdrs, agent, connprops as cp

PROPS = {"C01": wire.c01, "C02": wire.c02, "C03": wire.c03, "C04": framing.c04, "C05": cp.c05, "C06": wire.c06, "C07": cp.c07,
         "C08": cp.c08, "C09": cp.c09, "C10": cp.c10, "C11": cp.c11, "C12": cp.c12, "C13": cp.c13, "C14": cp.c14, "C15": reasm.c15, "C16": acker.c16, "C17": dispatch.c17, "C18": dispatch.c18, "C19": hdrs.c19, "C20": agent.c20, "C21": cp.c21, "C22": held.c22, "C23": api.c23}
