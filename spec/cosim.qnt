// The state machine that is simulated, and stepped in lock-step with the implementation.
//   quint run cosim.qnt --main cosim --init init --step tick --invariant allHold
// explores the specification alone (obs = exp). The conformance driver evaluates the same `tick`, performs
// the chosen action on the real contracts, replaces obs' and st' by what was observed, and evaluates `holds`.
module cosim {
  import arith.* from "./arith"
  import amm.* from "./amm"
  import halo.* from "./halo"
  import gen.* from "./gen"
  import props.* from "./props"
  import scope.* from "./scope"

  var st: State             // the state reached
  var pre: State            // the state before the last action
  var act: Act              // the last action
  var exp: Out              // what the specification prescribes for it
  var obs: Out              // what happened
  var la: Act               // the action before
  var lo: Out               // and what happened then
  var queue: List[Act]      // actions to come
  var prof: str             // generator profile

  action start(p: str, ds: List[int], funds: int, limit: int, seed: int): bool = {
    val g = genesis(ds.foldl(Set(), (z, d) => z.union(Set(d))), funds, limit)
    all {
      st' = g, pre' = g, act' = Nop, exp' = okay(g), obs' = okay(g), la' = Nop, lo' = okay(g),
      queue' = opening(p, ds, funds, seed), prof' = p
    }
  }

  // a given list of actions
  action scenario(ds: List[int], funds: int, limit: int, acts: List[Act]): bool = {
    val g = genesis(ds.foldl(Set(), (z, d) => z.union(Set(d))), funds, limit)
    all {
      st' = g, pre' = g, act' = Nop, exp' = okay(g), obs' = okay(g), la' = Nop, lo' = okay(g), queue' = acts, prof' = "none"
    }
  }

  // a little world (see scope.qnt)
  action world(m: str, part: int, ds: List[int], funds: int, limit: int): bool = scenario(ds, funds, limit, origin(m, part))

  action perform(a: Act, rest: List[Act]): bool = {
    val x = step(st, a)
    all { pre' = st, act' = a, exp' = x, obs' = x, st' = x.st, la' = act, lo' = obs, queue' = rest, prof' = prof }
  }

  action tick: bool = {
    nondet s = 0.to(4611686018427387903).oneOf()
    val l = if (queue.length() > 0) queue else script(prof, st, s)
    perform(l[0], l.slice(1, l.length()))
  }

  action init: bool = {
    nondet s = 0.to(4611686018427387903).oneOf()
    nondet p = Set("swap", "edge", "liquidity", "first", "quote", "hooks", "route", "routeq", "routermisc", "factory",
                   "admin", "migrate", "token", "mint", "funds", "tiny", "info", "upgrade", "mixed").oneOf()
    start(p, [1000, 1001, 1002, 1003], 10^30, 170, s)
  }

  val here: Step = { pre: pre, act: act, exp: exp, obs: obs, la: la, lo: lo }
  def ok(id: str): bool = holds(id, here)
  def counts(id: str): bool = relevant(id, here)

  val ids: Set[str] = Set("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27", "C28")
  val allHold: bool = ids.forall(i => ok(i))
}
