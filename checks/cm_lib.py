"""Shared by the checks of the call manager (core/call_manager.rs): its operations as tables of paths"""
from fsm_lib import *

CM = r"core::call_manager::CallManager::"
# what the call manager's operations do, kept as single steps
STEPS = CM + r"(notify_\w+|check_for_collision|terminate_call|terminate_active_call|terminate_and_drop_call|handle_terminate_active_call|send_\w+|clear_active_call|release_busy|reset_messages_in_flight|trim_messages|cancel_group_ring|start_group_ring|remove_outstanding_group_ring|internal_\w+|on_call_ended)$"
CALLS = r"core::call::Call::(?!call_id$|direction$|clone$)\w+$"
OTHER = r"core::call_manager::CallManager<.*Clone>?::clone$|core::call::Call<.*(Drop|Clone)>?::(drop|clone)$|Platform|CallSummary|uuid_to_string$|Message>?::decode$|HashMap|VecDeque|PendingCallMessages::|core::group_call::Client::|http::\w*Client"


def steps(c, f, extra=(), inline=(), expand=(), **kw):
    """paths of one operation with the steps above opaque"""
    rx = re.compile("|".join((STEPS, CALLS, OTHER) + tuple(extra)))
    ix = re.compile("|".join(inline)) if inline else None
    ex = re.compile("|".join(expand)) if expand else None
    ni = lambda n: n != f and bool(rx.search(n)) and not n.startswith(f + "::{closure") and not (ix and ix.search(n))
    kw.setdefault("deep", True)
    kw.setdefault("cap", 3000)
    kw.setdefault("big", True)
    return paths(c.graph(f, interest=lambda n: n != f and bool(rx.search(n) or ex and ex.search(n)), noinline=ni, **kw), limit=60000)


class Before:
    """what is known at one point of a path"""

    def __init__(self, F, p, i):
        self.F, self.ev = F, p.ev[:i]
        self.q = Path()
        self.q.ev, self.q.ass = self.ev, [e for e in self.ev if e[0] == "assume"]
        self.q.kind, self.q.ret, self.q.nodes = "at", None, ()

    def truth(self, pat):
        """0/1/None for the boolean whose description matches"""
        for e in reversed(self.q.ass):
            if e[2][0] == "e" and len(e[2][1]) == 1 and e[1].op != "discr" and re.fullmatch(pat, desc(e[1])):
                return next(iter(e[2][1]))
            if e[2][0] == "r" and e[2][1] == e[2][2] and e[2][1] in (0, 1) and e[1].op != "discr" and re.fullmatch(pat, desc(e[1])):
                return e[2][1]
        return None

    def discr(self, pat, ty=None):
        """the only possible discriminant of the value whose description matches, as a variant name if its type is known"""
        for e in reversed(self.q.ass):
            if e[1].op == "discr" and e[2][0] == "e" and len(e[2][1]) == 1 and re.fullmatch(pat, desc(e[1].a[0])) and (ty is None or re.search(ty, str(e[1].a[1]))):
                return next(iter(e[2][1]))
        return None

    def older(self, age):
        """is the age known to be past / not past the maximum: True, False or None"""
        for e in reversed(self.q.ass):
            o = ordfact(e)
            if not o:
                continue
            if "MAX_MESSAGE_AGE" in o[1] and re.fullmatch(age, o[2]):
                return o[0] == "<"          # MAX < age
            if "MAX_MESSAGE_AGE" in o[2] and re.fullmatch(age, o[1]) and o[0] == "<":
                return False                # age < MAX (nothing is known of the other side: age >= MAX)
        return None

    def eqs(self):
        """descriptions known to be equal / different"""
        out = []
        for e in self.q.ass:
            if e[1].op == "eq" and e[2][0] == "e" and len(e[2][1]) == 1:
                out.append((desc(core(e[1].a[0], True)), desc(core(e[1].a[1], True)), bool(next(iter(e[2][1])))))
        return out

    def called(self, pat):
        return [e for e in self.ev if e[0] == "call" and re.search(pat, e[1])]


def each_call(p, pat):
    for i, e in enumerate(p.ev):
        if e[0] == "call" and re.search(pat, e[1]):
            yield i, e


def d(v, n=160):
    return desc(core(v, True))[:n]
