------------------------------ MODULE MCSignals ------------------------------
(* The process around training: its own dispositions, runs that install handlers of their own while
   they last, signals at any moment, runs that end normally, by signal or by an error.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxRuns, MaxEpochs
Sigs == {"int", "term"}
Own == {"default", "ignore", "own"}
VARIABLES own,      \* what the process asked for
          disp,     \* what is installed
          saved,    \* what a run has put aside
          phase,    \* "out" | "in"
          verbose, epoch, stop, runs, log, hist
mcv == <<own, disp, saved, phase, verbose, epoch, stop, runs, log, hist>>
Init == /\ own \in [Sigs -> Own] /\ disp = own /\ saved = own /\ phase = "out" /\ verbose = FALSE
        /\ epoch = 0 /\ stop = FALSE /\ runs = 0 /\ log = "" /\ hist = << [op |-> "disp", a |-> own] >>
Log(r) == hist' = Append(hist, r)
SetOwn == /\ phase = "out" /\ runs < MaxRuns /\ hist[Len(hist)].op # "disp"
          /\ own' \in [Sigs -> Own] /\ disp' = own' /\ Log([op |-> "disp", a |-> own'])
          /\ UNCHANGED <<saved, phase, verbose, epoch, stop, runs, log>>
Begin(v) == /\ phase = "out" /\ runs < MaxRuns /\ phase' = "in" /\ verbose' = v /\ saved' = disp
            /\ disp' = IF v THEN [s \in Sigs |-> "train"] ELSE disp
            /\ epoch' = 0 /\ stop' = FALSE /\ runs' = runs + 1 /\ log' = ""
            /\ Log([op |-> "begin", a |-> v]) /\ UNCHANGED own
Epoch == /\ phase = "in" /\ ~stop /\ epoch < MaxEpochs /\ epoch' = epoch + 1 /\ Log([op |-> "epoch", a |-> epoch])
         /\ UNCHANGED <<own, disp, saved, phase, verbose, stop, runs, log>>
(* the process would die of a default disposition: not sent then *)
Deliver(s) == /\ disp[s] # "default" /\ ~stop /\ Len(hist) > 1 /\ hist[Len(hist)].op # "sig"
              /\ stop' = (stop \/ disp[s] = "train") /\ log' = disp[s] /\ Log([op |-> "sig", a |-> s])
              /\ UNCHANGED <<own, disp, saved, phase, verbose, epoch, runs>>
End(how) == /\ phase = "in" /\ (how = "error" \/ stop \/ epoch = MaxEpochs)
            /\ phase' = "out" /\ disp' = saved /\ Log([op |-> "end", a |-> how])
            /\ stop' = FALSE /\ UNCHANGED <<own, saved, verbose, epoch, runs, log>>
Next == \/ SetOwn \/ Epoch \/ \E v \in BOOLEAN : Begin(v)
        \/ \E s \in Sigs : Deliver(s) \/ \E h \in {"return", "error"} : End(h)
Restored == phase = "out" => disp = own
Heard == [][\A s \in Sigs : (hist'[Len(hist')] = [op |-> "sig", a |-> s]) => log' = IF phase = "in" /\ verbose THEN "train" ELSE own[s]]_mcv
NoEpochAfter == [][(stop /\ phase = "in") => epoch' = epoch]_mcv
Finished == runs = MaxRuns /\ phase = "out"
Dump == Finished => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
