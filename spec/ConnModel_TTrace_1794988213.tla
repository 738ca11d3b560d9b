---- MODULE ConnModel_TTrace_1794988213 ----
EXTENDS Sequences, ConnModel, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET ConnModel_TEExpression == INSTANCE ConnModel_TEExpression
    IN ConnModel_TEExpression!expression
----

_trace ==
    LET ConnModel_TETrace == INSTANCE ConnModel_TETrace
    IN ConnModel_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        cfd = (2)
        /\
        cc = (<<"server", "server">>)
        /\
        selfs = (0)
        /\
        binderr = (FALSE)
        /\
        ci = (2)
        /\
        spc = ("up")
        /\
        lst = ({1, 2})
        /\
        sc = (<<1, 2>>)
        /\
        sfd = (4)
        /\
        backlog = (0)
        /\
        round = (1)
        /\
        si = (2)
        /\
        cpc = ("up")
    )
----

_init ==
    /\ backlog = _TETrace[1].backlog
    /\ sc = _TETrace[1].sc
    /\ cfd = _TETrace[1].cfd
    /\ si = _TETrace[1].si
    /\ spc = _TETrace[1].spc
    /\ binderr = _TETrace[1].binderr
    /\ selfs = _TETrace[1].selfs
    /\ cc = _TETrace[1].cc
    /\ ci = _TETrace[1].ci
    /\ round = _TETrace[1].round
    /\ lst = _TETrace[1].lst
    /\ sfd = _TETrace[1].sfd
    /\ cpc = _TETrace[1].cpc
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ backlog  = _TETrace[i].backlog
        /\ backlog' = _TETrace[j].backlog
        /\ sc  = _TETrace[i].sc
        /\ sc' = _TETrace[j].sc
        /\ cfd  = _TETrace[i].cfd
        /\ cfd' = _TETrace[j].cfd
        /\ si  = _TETrace[i].si
        /\ si' = _TETrace[j].si
        /\ spc  = _TETrace[i].spc
        /\ spc' = _TETrace[j].spc
        /\ binderr  = _TETrace[i].binderr
        /\ binderr' = _TETrace[j].binderr
        /\ selfs  = _TETrace[i].selfs
        /\ selfs' = _TETrace[j].selfs
        /\ cc  = _TETrace[i].cc
        /\ cc' = _TETrace[j].cc
        /\ ci  = _TETrace[i].ci
        /\ ci' = _TETrace[j].ci
        /\ round  = _TETrace[i].round
        /\ round' = _TETrace[j].round
        /\ lst  = _TETrace[i].lst
        /\ lst' = _TETrace[j].lst
        /\ sfd  = _TETrace[i].sfd
        /\ sfd' = _TETrace[j].sfd
        /\ cpc  = _TETrace[i].cpc
        /\ cpc' = _TETrace[j].cpc

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("ConnModel_TTrace_1794988213.json", _TETrace)

=============================================================================

 Note that you can extract this module `ConnModel_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `ConnModel_TEExpression.tla` file takes precedence 
  over the module `ConnModel_TEExpression` below).

---- MODULE ConnModel_TEExpression ----
EXTENDS Sequences, ConnModel, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `ConnModel` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        backlog |-> backlog
        ,sc |-> sc
        ,cfd |-> cfd
        ,si |-> si
        ,spc |-> spc
        ,binderr |-> binderr
        ,selfs |-> selfs
        ,cc |-> cc
        ,ci |-> ci
        ,round |-> round
        ,lst |-> lst
        ,sfd |-> sfd
        ,cpc |-> cpc
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_backlogUnchanged |-> backlog = backlog'
        
        \* Format the `backlog` variable as Json value.
        \* ,_backlogJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(backlog)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_backlogModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].backlog # _TETrace[s-1].backlog
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE ConnModel_TETrace ----
\*EXTENDS IOUtils, ConnModel, TLC
\*
\*trace == IODeserialize("ConnModel_TTrace_1794988213.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE ConnModel_TETrace ----
EXTENDS ConnModel, TLC

trace == 
    <<
    ([cfd |-> 0,cc |-> <<>>,selfs |-> 0,binderr |-> FALSE,ci |-> 1,spc |-> "bind",lst |-> {},sc |-> <<>>,sfd |-> 0,backlog |-> 0,round |-> 1,si |-> 1,cpc |-> "socket"]),
    ([cfd |-> 0,cc |-> <<>>,selfs |-> 0,binderr |-> FALSE,ci |-> 1,spc |-> "accept",lst |-> {1},sc |-> <<>>,sfd |-> 1,backlog |-> 0,round |-> 1,si |-> 1,cpc |-> "socket"]),
    ([cfd |-> 1,cc |-> <<>>,selfs |-> 0,binderr |-> FALSE,ci |-> 1,spc |-> "accept",lst |-> {1},sc |-> <<>>,sfd |-> 1,backlog |-> 0,round |-> 1,si |-> 1,cpc |-> "connect"]),
    ([cfd |-> 1,cc |-> <<"server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "accept",lst |-> {1},sc |-> <<>>,sfd |-> 1,backlog |-> 1,round |-> 1,si |-> 1,cpc |-> "socket"]),
    ([cfd |-> 1,cc |-> <<"server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "unlisten",lst |-> {1},sc |-> <<1>>,sfd |-> 2,backlog |-> 0,round |-> 1,si |-> 1,cpc |-> "socket"]),
    ([cfd |-> 1,cc |-> <<"server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "bind",lst |-> {1},sc |-> <<1>>,sfd |-> 2,backlog |-> 0,round |-> 1,si |-> 2,cpc |-> "socket"]),
    ([cfd |-> 1,cc |-> <<"server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "accept",lst |-> {1, 2},sc |-> <<1>>,sfd |-> 3,backlog |-> 0,round |-> 1,si |-> 2,cpc |-> "socket"]),
    ([cfd |-> 2,cc |-> <<"server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "accept",lst |-> {1, 2},sc |-> <<1>>,sfd |-> 3,backlog |-> 0,round |-> 1,si |-> 2,cpc |-> "connect"]),
    ([cfd |-> 2,cc |-> <<"server", "server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "accept",lst |-> {1, 2},sc |-> <<1>>,sfd |-> 3,backlog |-> 2,round |-> 1,si |-> 2,cpc |-> "up"]),
    ([cfd |-> 2,cc |-> <<"server", "server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "unlisten",lst |-> {1, 2},sc |-> <<1, 2>>,sfd |-> 4,backlog |-> 0,round |-> 1,si |-> 2,cpc |-> "up"]),
    ([cfd |-> 2,cc |-> <<"server", "server">>,selfs |-> 0,binderr |-> FALSE,ci |-> 2,spc |-> "up",lst |-> {1, 2},sc |-> <<1, 2>>,sfd |-> 4,backlog |-> 0,round |-> 1,si |-> 2,cpc |-> "up"])
    >>
----


=============================================================================

---- CONFIG ConnModel_TTrace_1794988213 ----
CONSTANTS
    NP = 2
    SELF = 3
    ROUNDS = 2
    Variant = "keeplisten"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Wed Nov 18 07:50:14 UTC 2026