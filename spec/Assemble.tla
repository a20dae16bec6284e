------------------------------ MODULE Assemble ------------------------------
(* Programmatic assembly (P05): the calls of an Assembler in any order. An   *)
(* accepted call does what the statement it stands for does in a source; a   *)
(* refused one leaves the instrument as it was, and assembly goes on.        *)
EXTENDS Instrument

CONSTANTS Pars,      \* parameters a call may add: <<[n, t, d, u], ...>>
          Blocks,    \* [s, b]: section and token
          Deps,      \* flags of the instrument's own
          FlagTypes, \* component types with a flag of their own (token 9)
          MaxCalls

Calls == Len(script) - 1
Call(op, e, new) ==
    /\ script' = Append(script, [op EXCEPT !.err = e])
    /\ stack' = IF e = "" THEN <<new>> ELSE stack
    /\ UNCHANGED <<err, phase, files, fresh>>
Ready == phase = "read" /\ Calls < MaxCalls

AsmStart ==
    /\ phase = "start"
    /\ \E h \in Pick(Headers) :
        /\ stack' = <<Frame(h)>> /\ script' = <<[op |-> "file", hdr |-> h]>> /\ fresh' = [name |-> h.name]
    /\ phase' = "read" /\ UNCHANGED <<err, files>>

HasPar(n) == \E i \in 1..Len(Top.pars) : Top.pars[i].n = n
Parameter ==
    /\ Ready
    /\ \E ps \in Pick(Pars), ignore \in Pick(BOOLEAN) :
        /\ ignore => Len(ps) = 1
        /\ Call([op |-> "pars", ps |-> ps, ignore |-> ignore, err |-> ""],
                IF ~ignore /\ (Repeats(ps) \/ \E i \in 1..Len(ps) : HasPar(ps[i].n)) THEN "repeated" ELSE "",
                [Top EXCEPT !.pars = AddPars(@, ps)])
Code ==
    /\ Ready
    /\ \E b \in Pick(Blocks), e \in Pick(BOOLEAN) :
        \* ensure_user_var adds what is not there yet, when it is one declaration
        LET ens == e /\ b.b < 10
            there == b.s = "user" /\ ens /\ \E i \in 1..Len(Top.user) : Top.user[i] = b.b
        IN Call([op |-> "code", s |-> b.s, b |-> b.b, ens |-> ens, err |-> ""], "",
             CASE there -> Top
               [] b.s = "decl" -> [Top EXCEPT !.decl = Append(@, b.b)]
               [] b.s = "user" -> [Top EXCEPT !.user = Append(@, b.b)]
               [] b.s = "init" -> [Top EXCEPT !.init = Append(@, b.b)]
               [] b.s = "save" -> [Top EXCEPT !.save = Append(@, b.b)]
               [] OTHER -> [Top EXCEPT !.fin = Append(@, b.b)])
Meta ==
    /\ Ready
    /\ \E m \in Pick(Mds \ {<<>>}) : Call([op |-> "md", md |-> m, err |-> ""], "", [Top EXCEPT !.md = AddMds(@, m)])
Flag ==
    /\ Ready
    /\ Deps # {} /\ \E n \in Pick(Deps) : Call([op |-> "dep", n |-> n, err |-> ""], "", [Top EXCEPT !.deps = Append(@, n)])

WithFlag(deps, type) == IF type \in FlagTypes /\ ~(\E i \in 1..Len(deps) : deps[i] = 9) THEN Append(deps, 9) ELSE deps
Component ==
    /\ Ready /\ Len(Top.comps) < MaxComps
    /\ \E st \in Statements :
        /\ (st.ty.s # "Arm" \/ st.pv = <<>>)
        /\ LET e == Refusal(st)
           IN Call([op |-> "comp", st |-> st, err |-> ""], e,
                   IF e # "" THEN Top
                   ELSE [Top EXCEPT !.comps = Append(@, Meaning(st)), !.deps = WithFlag(@, st.ty.s)])

(* set_parameters: the first value of a parameter counts; one unknown name refuses them all *)
SetParameters ==
    /\ Ready /\ Top.comps # <<>>
    /\ \E i \in Pick(1..Len(Top.comps)) : \E v \in Pick(Values \ {<<>>}), over \in Pick(BOOLEAN) :
        LET c == Top.comps[i]
        IN Call([op |-> "set", i |-> i, pv |-> v, over |-> over, err |-> ""],
                IF \E k \in 1..Len(v) : ~KnownPar(c.type, v[k].p) THEN "parameter" ELSE "",
                [Top EXCEPT !.comps[i].pv = SetPars(@, Bound(v, c.name), over)])
Attribute ==
    /\ Ready /\ Top.comps # <<>>
    /\ \E i \in Pick(1..Len(Top.comps)) :
        \E ch \in Pick({x \in ChangeChoices(Top.comps[i]) : UsableChange(Top.comps[i], x) /\ x.k # "par"}) :
            Call([op |-> "change", i |-> i, ch |-> ch, err |-> ""], "", [Top EXCEPT !.comps[i] = Changed(@, ch)])
(* a WHEN which does not depend on anything is refused *)
ConstantWhen ==
    /\ Ready /\ BadRefs /\ Top.comps # <<>>
    /\ \E i \in Pick(1..Len(Top.comps)) : Call([op |-> "badwhen", i |-> i, err |-> ""], "constant", Top)

AsmFinish ==
    /\ phase = "read" /\ Calls > 0 /\ (Sampling => Calls = MaxCalls)
    /\ phase' = "done"
    /\ Emit([script |-> script, err |-> "", res |-> Result])
    /\ UNCHANGED <<stack, script, err, files, fresh>>

AsmNext == AsmStart \/ Parameter \/ Code \/ Meta \/ Flag \/ Component \/ Component \/ Component \/ SetParameters \/ Attribute \/ ConstantWhen \/ AsmFinish
AsmSpec == Init /\ [][AsmNext]_vars
------------------------------------------------------------------------------
(* a refused call is a stuttering step of the instrument *)
RefusedChangesNothing ==
    [][ (Len(script') > Len(script) /\ Len(script) > 0 /\ script'[Len(script')].op # "file" /\ script'[Len(script')].err # "")
        => stack' = stack ]_vars
(* nothing is forgotten: assembly only adds components and parameters *)
OnlyAdds ==
    [][ stack # <<>> => /\ Len(stack'[1].comps) >= Len(stack[1].comps)
                        /\ \A i \in 1..Len(stack[1].comps) : stack'[1].comps[i].name = stack[1].comps[i].name
                        /\ \A i \in 1..Len(stack[1].pars) : stack'[1].pars[i] = stack[1].pars[i] ]_vars
=============================================================================
