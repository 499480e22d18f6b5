#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OB = "trading-engine/src/orderbook/"
VERUS = "Verus contracts on the functions extracted mechanically from /repo on every run; native search only replays failures"
T = []


def P(id, title, statement, over, text, why, files, mech, state=None, technique=VERUS, level="proof", note="", na=None):
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, technique=technique, level=level, note=note, na=na))


BOOKNOTE = ("Deductive proof over all inputs and all iterations that each function of the book keeps its contract; assumes the contracts of the standard collections (specs/shim_collections.rs), "
            "positive quantities, unused ids for new orders and totals that fit 64 bits. Functions whose annotations cannot be attached to a changed tree fall back to the random search, labelled bounded.")
BF = [OB + "mod.rs", OB + "half_book.rs", OB + "level.rs", "trading-engine/src/types/base.rs", "trading-engine/src/data/order.rs"]
BSTATE = [{"name": "levels", "meaning": "price -> queue of resting orders in arrival order", "where": OB + "half_book.rs"},
          {"name": "cache", "meaning": "order id -> price it rests at", "where": OB + "half_book.rs"},
          {"name": "best_price", "meaning": "best resting price, or the sentinel of an empty side", "where": OB + "half_book.rs"}]

P("C01", "The order book stays internally consistent after every operation",
  "After any sequence of operations on an order book or one of its sides, the total of every price level and of every side equals the sum of its resting orders, no price level is empty, every resting order id is found exactly at the price where it rests and no other id is found, and the reported best price is the best resting price or the empty-side sentinel. Every query (length, emptiness, totals, price of an order, order lookup, quantity at a price) agrees with the resting orders. No operation on a valid input panics or overflows.",
  ["histories", "inputs"], "every sequence of add, cancel, change quantity, change price, modify, remove, limit and market orders and snapshot updates with positive quantities and unused new ids",
  "The tests replay a few fixed scripts of a handful of orders and compare a few totals; consistency must survive every interleaving of operations, queue lengths and price patterns.",
  BF, [{"name": "per-level and per-side totals, id index and best price are updated by each operation separately", "where": OB + "half_book.rs HalfBook, " + OB + "level.rs Level"}], BSTATE, note=BOOKNOTE)
P("C02", "Matching follows price-time priority and conserves quantity",
  "An incoming limit or market order trades only against the opposite side, at eligible prices from best to worst and within a price in arrival order, and only as long as it has quantity left and an eligible order remains. The reported trades plus the reported remainder equal the incoming quantity, each reported trade equals what that price level lost, and only a limit order's remainder is then queued, behind earlier orders at its price. All other resting orders keep their quantity and queue position.",
  ["histories", "inputs"], "every book state reachable by valid operations, and every limit or market order with a positive quantity",
  "Tests check a few hand-made sweeps; priority and conservation depend on arbitrary depth, partial fills and exact exhaustion of levels.",
  BF, [{"name": "level sweep and first-in first-out consumption", "where": OB + "half_book.rs trade_limit_order / trade_market_order, " + OB + "level.rs trade"}, {"name": "routing and queueing of the remainder", "where": OB + "mod.rs process_limit_order, process_market_order"}], BSTATE, note=BOOKNOTE)
P("C03", "Processing orders never leaves the book crossed",
  "If the highest bid is below the lowest ask (or a side is empty), the same holds after processing any limit order, market order, modification, quantity change, cancellation or removal.",
  ["histories", "inputs"], "every uncrossed book and every such operation with positive quantities",
  "A crossed book needs particular prices, depth and residual quantities; tests only try a few price combinations.",
  BF, [{"name": "an order rests only after no eligible opposite price remains", "where": OB + "mod.rs process_limit_order, modify_order"}], BSTATE, note=BOOKNOTE)
P("C04", "Cancel, modify, quantity change and removal affect only their target",
  "Adding, cancelling, resizing, repricing or modifying an order changes exactly that order: its quantity becomes the requested one (zero removes it), an unchanged price keeps its place in the queue, a changed price re-enters it as a new arrival, and every other order keeps its price, quantity and queue position. Removing an anonymous quantity at a price takes it from the latest orders at that price only and reports what could not be removed. An unknown id changes nothing and is reported as not found.",
  ["histories", "inputs"], "every consistent book and every such request, for known and unknown ids",
  "Tests touch single orders in tiny books; isolation must hold for every other order, queue position and level.",
  BF, [{"name": "single-order operations", "where": OB + "half_book.rs cancel_order, change_quantity, change_price, remove_order; " + OB + "mod.rs modify_order"}], BSTATE, note=BOOKNOTE)
P("C05", "A book updated from an aggregated snapshot shows exactly that snapshot",
  "After applying an aggregated quote or trade-and-quote snapshot for its own instrument to a snapshot-fed book, each side holds exactly the prices of the levels the snapshot has in use, with their quantities, and nothing else; a snapshot of another instrument is refused and changes nothing. The level snapshot read back lists every level once in ascending price order with its quantity and order count, and two books compare equal by level exactly when their prices and quantities agree.",
  ["histories", "inputs"], "every sequence of snapshots with distinct prices and positive quantities, in any order of levels",
  "Tests apply one or two fixed snapshots; replacement must hold for any overlap between the old levels and the new ones.",
  BF + ["trading-engine/src/data/quote.rs", "trading-engine/src/data/trade_quote.rs"], [{"name": "snapshot replacement", "where": OB + "half_book.rs update_l2_snapshot, to_level_snapshot, eq_level; " + OB + "mod.rs update_from_quote_snapshot"}], BSTATE, note=BOOKNOTE)
P("C06", "Orders decomposed from a snapshot reproduce it on the old book",
  "Decomposing a new aggregated snapshot against a book yields, for every price whose quantity differs and for no other, exactly one order of the right side: an addition of the missing quantity with a fresh id, or a removal of the surplus. Applying those orders to the old book gives the book after the call, which shows exactly the snapshot.",
  ["histories", "inputs"], "every consistent book and every snapshot with distinct prices and positive quantities",
  "Tests use one fixed pair of books; the difference must be right for every pattern of appearing, vanishing, growing and shrinking levels.",
  BF, [{"name": "difference of level quantities turned into orders and applied", "where": OB + "half_book.rs decomposed_orders_with_update; " + OB + "mod.rs decomposed_orders_with_update"}], BSTATE, note=BOOKNOTE)

exec(open(os.path.join(ROOT, "lib", "mk_more.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in T:
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["state"]:
            a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "mkdir -p evidence build && verus --version >/dev/null && python3 -c 'import sys; sys.path.insert(0, \"lib\"); import unit'",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in T if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in T if p["na"]]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
