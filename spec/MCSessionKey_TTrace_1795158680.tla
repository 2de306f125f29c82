---- MODULE MCSessionKey_TTrace_1795158680 ----
EXTENDS Sequences, TLCExt, Toolbox, MCSessionKey, Naturals, TLC

_expression ==
    LET MCSessionKey_TEExpression == INSTANCE MCSessionKey_TEExpression
    IN MCSessionKey_TEExpression!expression
----

_trace ==
    LET MCSessionKey_TETrace == INSTANCE MCSessionKey_TETrace
    IN MCSessionKey_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        e = (<<0, 2, 1, 1, 0, 1, 0, 0, 0, 0>>)
    )
----

_init ==
    /\ e = _TETrace[1].e
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ e  = _TETrace[i].e
        /\ e' = _TETrace[j].e

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("MCSessionKey_TTrace_1795158680.json", _TETrace)

=============================================================================

 Note that you can extract this module `MCSessionKey_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `MCSessionKey_TEExpression.tla` file takes precedence 
  over the module `MCSessionKey_TEExpression` below).

---- MODULE MCSessionKey_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, MCSessionKey, Naturals, TLC

expression == 
    [
        \* To hide variables of the `MCSessionKey` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        e |-> e
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_eUnchanged |-> e = e'
        
        \* Format the `e` variable as Json value.
        \* ,_eJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(e)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_eModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].e # _TETrace[s-1].e
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE MCSessionKey_TETrace ----
\*EXTENDS IOUtils, MCSessionKey, TLC
\*
\*trace == IODeserialize("MCSessionKey_TTrace_1795158680.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE MCSessionKey_TETrace ----
EXTENDS MCSessionKey, TLC

trace == 
    <<
    ([e |-> <<>>]),
    ([e |-> <<0>>]),
    ([e |-> <<0, 2>>]),
    ([e |-> <<0, 2, 1>>]),
    ([e |-> <<0, 2, 1, 1>>]),
    ([e |-> <<0, 2, 1, 1, 0>>]),
    ([e |-> <<0, 2, 1, 1, 0, 1>>]),
    ([e |-> <<0, 2, 1, 1, 0, 1, 0>>]),
    ([e |-> <<0, 2, 1, 1, 0, 1, 0, 0>>]),
    ([e |-> <<0, 2, 1, 1, 0, 1, 0, 0, 0>>]),
    ([e |-> <<0, 2, 1, 1, 0, 1, 0, 0, 0, 0>>])
    >>
----


=============================================================================

---- CONFIG MCSessionKey_TTrace_1795158680 ----
CONSTANTS
    Design = "anylength"
    B = 3
    Size = 10
    MinPad = 2

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 07:11:21 UTC 2026