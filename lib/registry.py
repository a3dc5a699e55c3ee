"""Which backend decides which property, and what each one covers."""
from concurrent.futures import ThreadPoolExecutor

import backends

# level: "proof" when the property's core obligations are discharged by a deductive backend on every run,
# "other" when only the bounded stand-in decides it.
BOUNDED = "bounded stand-in only (executable contracts on the real crate, generated inputs and schedules); not counted as proved"


def P(level="other", verus=(), kani=(), note=BOUNDED, assumptions=()):
    return {"level": level, "verus": list(verus), "kani": list(kani), "note": note, "assumptions": list(assumptions)}


PROPS = {"C%02d" % i: P() for i in range(1, 32)}

PROPS["C06"] = P("proof", ["lagrange"], note="lagrange_coeffs proved for all point sets over every field: row i holds the value at "
                 "the i-th new point of each basis polynomial, and combining values with the row gives the value of the unique "
                 "polynomial through them. The field laws themselves are C01's; the bounded run replays the same clauses on the crate.")
PROPS["C15"] = P("proof", ["ids"], note="ProtocolIDBuilder (constructor and iterator) proved for every parent and bound; that all identifiers of a whole protocol run differ follows "
                 "by a theorem over trees of builders, one builder per protocol instance (that the protocols keep to this is bounded)")
PROPS["C16"] = P("proof", ["gather"], note="message_from_each_party and sync proved for every arrival order and any duplicates")
PROPS["C17"] = P("proof", ["router", "wiring"], note="receive_router proved: exactly-once in-order delivery per identifier for every interleaving of "
                 "messages and receive requests, both fed by trusted channel contracts; send, recv and the wiring of the tasks to the channels proved for both networks")
PROPS["C18"] = P("proof", ["route", "frame", "wiring"], ["vint"], note="send_router, in-memory router, the wiring of both networks, party_sender and party_receiver proved for all message "
                 "sequences and all ways the stream is cut into pieces; the vint64 lengths proved for every u64 by Kani")
PROPS["C19"] = P("proof", ["stats", "router"], note="Stats arithmetic proved, so that the table holds the sums of what was counted for each party; every message is counted before it is handed over")

PROPS["C30"] = P("proof", ["connect", "wiring"], note="connect_to_peers proved for every number of parties, every order of arrival and any number of failing tries: one connection to every "
                 "other party, at its place, with its number read before and the own number said first; it returns only with all of them, and setup_tcp_network uses exactly these. "
                 "Given: sockets deliver, every party runs the same function, and only finitely many tries to connect fail")
PROPS["C31"] = P("proof", ["report_garble", "report_preproc"], note="benchmark of both programs proved for every number of parties and all options: the saved value states the options of the run, and "
                 "what each party contributes has one entry per repetition. Given: argh's options are the command line, the json crate, files, every party runs the same program; "
                 "what is measured does not touch the report")
PROPS["C31"]["programs"] = True

PROPS["C01"] = P("proof", ["galois_c", "galois"], note="log/antilog tables and their users in galois.c proved for every width 1..=29 to compute one field; "
                 "every operator form of GF proved to be the operation of that field with results below 2^W")
PROPS["C02"] = P("proof", ["galois_c", "gfinit"], note="table construction proved for every width and every earlier state of the library's tables, every polynomial proved primitive so that the table never fails to fill; GF::init proved "
                 "to report success only with the tables of its width in place and to leave other widths alone. The mutex makes initialisations atomic (trusted)")
PROPS["C03"] = P("proof", ["gfconv"], note="conversions proved for every u32 and width, sampling proved to draw uniformly from 0..2^W; that the generator is uniform is the rand crate's contract")
PROPS["C04"] = P("proof", ["gfser"], note="serialisation and decoding proved for every element, width and byte sequence, including the round trip")
PROPS["C08"] = P("proof", ["combination"], note="all four methods proved for every index list and example")
PROPS["C13"] = P("proof", ["eval"], note="Circuit::eval proved for every well-formed circuit and assignment")
PROPS["C14"] = P("proof", ["pack", "packorder", "gatecounts"], note="PackedGateInfo::from, pack, pack_gate_info and get_gate_counts proved for every circuit and positive packing size; "
                 "the order within a kind is left open")
PROPS["C29"] = P("proof", ["positions"], note="share_pos, default_pos and wire_to_pos proved, with pairwise distinctness, for every width, n, l and wire in range")


PROPS["C07"] = P("proof", ["codes", "binmat"], note="rs_gen_mat and super_inv_matrix proved for all sizes and positions, with the decoding and "
                 "extraction theorems; the loader of binary matrices proved for every well-formed file (number parsing is the standard library's)")
PROPS["C12"] = P("proof", ["bristol"], note="Circuit::from_bristol_fashion proved for every well-formed description: wires, gates in file order, inputs and outputs; "
                 "splitting into lines and words and number parsing are the standard library's")
PROPS["C26"] = P("proof", ["dummy"], note="PreProc::dummy proved: for every seed and count the lists of all parties are shares of common polynomials with the values each kind "
                 "demands, in the announced numbers, a function of seed and party alone; that different seeds give different material is bounded")
PROPS["C09"] = P("proof", ["share", "semirecon", "recon"], note="every method of PackedSharing that makes or opens shares proved for every n, "
                 "degree and secret positions in range")
PROPS["C10"] = P("proof", ["recon"], note="recon accepts exactly the consistent share vectors; proved for every n and degree")
PROPS["C11"] = P("proof", ["share"], note="for fixed secrets the coins and the shares of any np - l parties determine each other (and any np shares "
                 "of a random sharing); uniformity of one drawn element is C03 and the rand crate")
PROPS["C20"] = P("proof", ["reduce"], note="every message and result of one party in reduce_degree and mult proved; the products at all parties follow "
                 "by a theorem over polynomials, for every n, t, l, leader and batch")
PROPS["C21"] = P("proof", ["trans"], note="SharingTransform::new and every message and result of one party in trans proved; the moved values at all "
                 "parties follow by a theorem over polynomials")
PROPS["C23"] = P("proof", ["generate"], note="every message and result of one party in rand, zero and randbit proved, and the number of results; degree, zero "
                 "and bit values at all parties follow by a theorem over polynomials; independence of extracted values rests on C07")
PROPS["C05"] = P("proof", ["preser"], note="both conversions between the material and its stored form proved; serde's derived encoding of five vectors is trusted, "
                 "elements are C04")


PROPS["C25"] = P("proof", ["preproc"], note="every share a party ends up with in preproc proved to be the named share of the sub-protocols' results, each coin used once; "
                 "the bias of the errors follows from the arithmetic lemma on two bits and a scalar; the sub-protocols are C20 and C23")
PROPS["C28"] = P("proof", ["nonces"], note="gates, update_counts, hash_inp_wires, compute_lookup, new and get of LPNMatrix proved; the same matrix at every party and a fresh "
                 "nonce for every use of a wire follow by proved composition lemmas")


PROPS["C22"] = P("proof", ["randtrans"], note="RandSharingTransform::new and every message and result of one party in randtrans proved; that both sharings of every "
                 "transformation in the batch carry matching values follows by a theorem over polynomials, for every n >= t + 2l, batch size and position lists")
PROPS["C27"] = P("proof", ["tables", "transforms", "wires", "garble"], note="garble_and, garble_xor, garble_inv, select, garble, GarbleContext::new and Transforms proved: every row of every gate is the encoding of the "
                 "selected output key and masked value plus key products and error, each gate from the moved shares of its own inputs and the material of its own block; the opened "
                 "rows follow by theorems over polynomials. The bounded run opens and decrypts whole garblings row by row")
PROPS["C24"] = P("proof", ["counts", "garble", "garble_less"], note="describe proved to announce the number of each kind that garble, proved separately, takes; garble proved to complete without a panic and leave nothing "
                 "with exactly these numbers, and to complete only if there are at least these numbers")



def run_backends(prop, spec, repo, verif, target, env, tier):
    jobs = []
    with ThreadPoolExecutor(4) as ex:
        for u in spec["verus"]:
            jobs.append(ex.submit(backends.run_verus, u, repo, verif, target, env))
        for h in spec["kani"]:
            jobs.append(ex.submit(backends.run_kani, h, repo, verif, target, env))
        return [j.result() for j in jobs]


def technique(prop, spec):
    parts = []
    if spec["verus"]:
        parts.append("Verus contracts on extracted functions (units %s)" % ", ".join(spec["verus"]))
    if spec["kani"]:
        parts.append("Kani harnesses (%s)" % ", ".join(spec["kani"]))
    parts.append("executable contracts on the real crate (bounded)")
    return "; ".join(parts)
