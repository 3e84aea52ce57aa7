----------------------------- MODULE Lifecycle -----------------------------
(* A model over its life: marking modules trainable / frozen, training, resuming, assigning
   parameters, saving + reloading, copying, cloning.  K leaf modules in one chain.

   val[j]   integer value of module j's parameters.  With the optimizer set to b1 = b2 = eps = 0
            and learning rate i+1, one update moves it by (epochs already counted for j) + 1.
   term[j]  the same parameters as a term: a sequence of "set to v" and "epoch e on top of the
            moment history h" tokens.  Two parameter values denote the same computation iff their
            terms are equal; used to compare real Adam runs bit for bit.
   hist[j]  what the optimizer state of j remembers: the epochs <<batches, phase>> since it was
            started; its length is the per-parameter epoch counter.
   stp      number of training batches the (stateful) modules have seen.
   key      the model's random key as a term: one entry per training run (number of splits).   *)
EXTENDS Integers, Sequences, FiniteSets


VARIABLES K, sched, hasp, val, term, flag, hist, opt, stp, key
lvars == <<K, sched, hasp, val, term, flag, hist, opt, stp, key>>

Leaves == 1..K
Mod(a, b) == a % b

Start(k, sc, hp, v0, f0, s0) ==
  /\ K = k /\ sched = sc /\ hasp = hp /\ val = v0 /\ flag = f0 /\ stp = s0 /\ opt = FALSE
  /\ term = [j \in 1..k |-> << <<"v", v0[j]>> >>]
  /\ hist = [j \in 1..k |-> << >>]
  /\ key = << >>

SetFlag(ls, v) ==
  /\ flag' = [j \in Leaves |-> IF j \in ls THEN v ELSE flag[j]]
  /\ UNCHANGED <<K, sched, hasp, val, term, hist, opt, stp, key>>

Trains(j) == flag[j] /\ hasp[j]
AnyTrains == \E j \in Leaves : Trains(j)

(* one training run that ends with its best epoch being the b-th (b = 0: the starting point),
   nb batches per epoch *)
RECURSIVE After(_, _, _, _, _, _)
After(j, v, t, h, s, m) ==           \* value, term, history of j after the epochs in m (list of nb)
  IF m = << >> THEN [v |-> v, t |-> t, h |-> h]
  ELSE LET nb == Head(m)
           h2 == Append(h, <<nb, Mod(s, 3)>>)
       IN After(j, v + nb * (IF sched THEN Len(h) + 1 ELSE 1), Append(t, <<"e", h2>>), h2, s + nb, Tail(m))
Train(resume, nb, b) ==
  /\ AnyTrains
  /\ resume => opt
  /\ LET m == [i \in 1..b |-> nb]
         h0(j) == IF resume THEN hist[j] ELSE << >>
         r == [j \in Leaves |-> IF Trains(j) THEN After(j, val[j], term[j], h0(j), stp, m)
                                ELSE [v |-> val[j], t |-> term[j], h |-> h0(j)]]
     IN /\ val' = [j \in Leaves |-> r[j].v]
        /\ term' = [j \in Leaves |-> r[j].t]
        /\ hist' = [j \in Leaves |-> r[j].h]
  /\ opt' = TRUE
  /\ stp' = stp + nb * b
  /\ key' = Append(key, nb * b)
  /\ UNCHANGED <<K, sched, hasp, flag>>

(* assigning parameters: the optimizer's memory is not touched *)
Assign(v) ==
  /\ val' = [j \in Leaves |-> IF hasp[j] THEN v[j] ELSE val[j]]
  /\ term' = [j \in Leaves |-> IF hasp[j] THEN << <<"v", v[j]>> >> ELSE term[j]]
  /\ UNCHANGED <<K, sched, hasp, flag, hist, opt, stp, key>>

(* a saved and reloaded model, or a deep copy, is the same model *)
Reload == UNCHANGED lvars
(* a new model given the parameters, state and key of the old one: same, without optimizer *)
Clone == /\ opt' = FALSE /\ hist' = [j \in Leaves |-> << >>]
         /\ UNCHANGED <<K, sched, hasp, val, term, flag, stp, key>>

(* ---------------- properties ---------------- *)
FrozenFixed == [][\A j \in Leaves : ~flag[j] /\ flag'[j] = flag[j] /\ (opt' /\ stp' > stp) => val'[j] = val[j] /\ term'[j] = term[j]]_lvars
TrainableMoves == [][(stp' > stp) => \A j \in Leaves : Trains(j) => val'[j] > val[j] /\ term'[j] # term[j]]_lvars
CountersFollowHistory == ~opt => \A j \in Leaves : hist[j] = << >>
ParamlessNeverMove == [][\A j \in Leaves : ~hasp[j] => val'[j] = val[j]]_lvars
=============================================================================
