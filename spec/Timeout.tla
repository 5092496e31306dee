------------------------------ MODULE Timeout ------------------------------
(***************************************************************************)
(* The time-out helper: the main thread performs an action and ends the     *)
(* process with status 0; a timer thread calls a last function after the    *)
(* given duration and ends the process with status 1.  A switch, which      *)
(* nobody ever gives back, decides which of the two ends the process.       *)
(***************************************************************************)
EXTENDS Integers, TLC, RecordProps

VARIABLES main, timer, switch, acted, begun, done, code
tvars == <<main, timer, switch, acted, begun, done, code>>
Running == code = -1

TInit == /\ main = "act" /\ timer = "sleep" /\ switch = "free"
         /\ acted = FALSE /\ begun = 0 /\ done = 0 /\ code = -1
Act == main = "act" /\ Running /\ acted' = TRUE /\ main' = "lock" /\ UNCHANGED <<timer, switch, begun, done, code>>
MainTakes == main = "lock" /\ Running /\ switch = "free" /\ switch' = "main" /\ main' = "exit" /\ UNCHANGED <<timer, acted, begun, done, code>>
MainExits == main = "exit" /\ Running /\ code' = 0 /\ UNCHANGED <<main, timer, switch, acted, begun, done>>
Wakes == timer = "sleep" /\ Running /\ timer' = "lock" /\ UNCHANGED <<main, switch, acted, begun, done, code>>
TimerTakes == timer = "lock" /\ Running /\ switch = "free" /\ switch' = "timer" /\ timer' = "call" /\ UNCHANGED <<main, acted, begun, done, code>>
Calls == timer = "call" /\ Running /\ begun' = begun + 1 /\ timer' = "return" /\ UNCHANGED <<main, switch, acted, done, code>>
Returns == timer = "return" /\ Running /\ done' = done + 1 /\ timer' = "exit" /\ UNCHANGED <<main, switch, acted, begun, code>>
TimerExits == timer = "exit" /\ Running /\ code' = 1 /\ UNCHANGED <<main, timer, switch, acted, begun, done>>
TNext == Act \/ MainTakes \/ MainExits \/ Wakes \/ TimerTakes \/ Calls \/ Returns \/ TimerExits \/ (~Running /\ UNCHANGED tvars)
(* the action need not end: only the timer is sure to make progress *)
TSpec == TInit /\ [][TNext]_tvars /\ WF_tvars(Wakes \/ TimerTakes \/ Calls \/ Returns \/ TimerExits) /\ WF_tvars(MainTakes \/ MainExits)

EndsWell == ~Running => EndAllowed(code, acted, begun, done)
Once == begun <= 1 /\ done <= begun
EndsEventually == <>(~Running)
=============================================================================
