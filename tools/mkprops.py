"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json
import os

P = []
F = "src/fedservice/"


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [F + f for f in files],
                          "mechanism": [{"name": n, "where": F + w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": F + w} for n, m, w in state or []],
                          "observe_at": observe or [], "hook_needed": None}})


prop("C01", "A trust chain is accepted only when it really ends in a configured anchor",
     "Whenever a node accepts a trust chain about an entity, the chain starts with a statement signed with a "
     "key that node was configured with for one of its own trust anchors, every following statement is issued "
     "by the subject of the one before and signed with a key that one lists for it, and it ends in the entity's "
     "own configuration, about that entity and signed with the keys its superior vouches for. No network "
     "behaviour, hostile or faulty superior, earlier operation or presented chain makes it accept another.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "every federation topology, every history of earlier resolutions, key rotations, restarts and rejected "
     "chains, every set of documents a hostile network or hostile authority can serve, every chain presented by a peer",
     "The tests verify a handful of well formed chains served by well behaved parties, each by a fresh object; what "
     "earlier traffic leaves behind in key jar and caches, and documents from hostile parties, is not sampled.",
     ["entity/function/verifier.py", "entity/function/trust_chain_collector.py", "entity/function/__init__.py",
      "entity/__init__.py", "entity/server/resolve.py"],
     [("anchor check and statement by statement signature check", "entity/function/verifier.py:TrustChainVerifier"),
      ("collection of statements", "entity/function/trust_chain_collector.py:TrustChainCollector")],
     [("keyjar", "keys known per entity, shared by everything in the node", "entity/__init__.py"),
      ("config_cache / entity_statement_cache", "documents fetched earlier", "entity/function/trust_chain_collector.py")],
     ["get_verified_trust_chains", "FederationEntity.get_trust_chains", "verifier(chain)"])

prop("C02", "Nothing is accepted, stored or handed out past its expiry",
     "A trust chain handed out by a node carries as its expiry time the earliest expiry time of its statements, "
     "and that time has not passed by that node's own clock. This also holds for chains kept from earlier "
     "and for chains built from kept statements, whatever the clock did in between.",
     ["histories", "schedules", "inputs"],
     "every history of resolutions, lifetimes, waits, clock skews and clock jumps, and every chain presented by a peer",
     "The tests run within one second of wall time; no statement ever expires while one is running.",
     ["entity/function/verifier.py", "entity_statement/statement.py", "entity_statement/cache.py",
      "entity/function/trust_chain_collector.py", "entity/__init__.py"],
     [("expiry of the chain", "entity/function/verifier.py:trust_chain_expires_at"),
      ("expiry in caches", "entity_statement/cache.py:ESCache"),
      ("stored chains", "entity/__init__.py:get_trust_chains")],
     [("trust_chain", "verified chains per entity", "entity/__init__.py")],
     ["TrustChain.exp", "FederationEntity.get_trust_chains", "FederationEntity.get_verified_metadata"])

prop("C03", "Constraints of every superior bind everything below it",
     "A trust chain is accepted only if, for every statement in it that carries constraints, the number of "
     "intermediates below stays within the stated path length and every entity below matches the permitted and "
     "none of the excluded names; a subordinate can tighten but never loosen them. A chain that meets all of them is not "
     "rejected because of constraints.",
     ["configurations", "inputs", "histories"],
     "every depth of chain, every placement of path length and naming constraints, every change of them over time",
     "The tests combine fixed constraint dictionaries with helper functions and resolve three chains.",
     ["entity_statement/constraints.py", "entity/function/verifier.py"],
     [("constraint evaluation", "entity_statement/constraints.py:meets_restrictions")],
     observe=["get_verified_trust_chains", "verifier(chain)"])

prop("C04", "Resolved metadata obeys every superior's policy, whatever was resolved before",
     "The metadata a node attaches to an accepted trust chain satisfies every restriction (value, subset_of, "
     "superset_of, one_of, essential) that each superior in the chain states for that entity type, and equals the entity's "
     "own metadata transformed by the combined policies; if the policies conflict or cannot be met no metadata is "
     "handed out for that chain. The result does not depend on what the node resolved or did before.",
     ["configurations", "histories", "inputs"],
     "every chain depth, every placement and combination of policy operators, every order of resolutions and policy changes",
     "The tests apply fixed policies once on fresh objects; the operators are sampled one or two at a time.",
     ["entity/function/policy.py", "entity/function/policy_operator.py", "entity/function/__init__.py"],
     [("policy combination", "entity/function/policy.py:combine"),
      ("policy application", "entity/function/policy.py:apply_metadata_policy"),
      ("operators", "entity/function/policy_operator.py")],
     observe=["TrustChain.metadata"])

prop("C05", "Caching changes cost, not answers",
     "Every statement used in an accepted chain was issued by its issuer for that subject and is not older than its "
     "own stated lifetime allows; once the lifetimes of what was published before a change have passed, resolution reflects "
     "the current registrations, keys, policies and metadata. While a kept set of statements is still valid, an outage "
     "of the parties that issued them does not make resolution fail.",
     ["histories", "fault_sequences", "schedules"],
     "every history of publications, key rotations, de-registrations, resolutions, waits and outages",
     "The tests never change what a peer publishes between two resolutions and never let time pass.",
     ["entity/function/trust_chain_collector.py", "entity_statement/cache.py", "entity/__init__.py"],
     [("statement caches", "entity_statement/cache.py:ESCache"),
      ("cache use", "entity/function/trust_chain_collector.py:_get_entity_statement")],
     [("config_cache / entity_statement_cache", "documents fetched earlier", "entity/function/trust_chain_collector.py")],
     ["requests that reach the network", "get_verified_trust_chains"])

prop("C06", "Resolution terminates, isolates faulty superiors and recovers when faults stop",
     "Resolving an entity terminates after a number of requests bounded by the size of the federation graph, also when the "
     "graph has cycles. A superior that is unreachable, answers garbage, or leads to an invalid chain does not prevent the "
     "chains over the other superiors from being found, and once faults stop the same node finds exactly the chains the federation "
     "defines, however many faulty answers it saw before.",
     ["fault_sequences", "schedules", "configurations", "histories"],
     "every federation graph, including cyclic ones, every sequence of network faults, crashes, partitions and byzantine answers followed by a fault-free period",
     "The tests use trees without cycles, and a network that never fails.",
     ["entity/function/trust_chain_collector.py", "entity/function/__init__.py"],
     [("collection and loop detection", "entity/function/trust_chain_collector.py:collect_tree"),
      ("chain evaluation", "entity/function/__init__.py:get_verified_trust_chains")],
     observe=["get_verified_trust_chains", "number of requests per resolution"])

prop("C07", "An authority states exactly what its registry and policy say at that moment",
     "An entity configuration is self-signed, names the entity as issuer and subject and carries its present keys, hints and "
     "metadata; a subordinate statement is signed by the authority in its own name and carries exactly the keys, policy, "
     "constraints and metadata currently registered for that subject, valid for the registered lifetime. Answering requests "
     "never changes the registry, and nothing is stated about an entity that is not registered.",
     ["histories", "schedules", "inputs"],
     "every history of registrations, de-registrations, changes, queries (well formed and not) and restarts",
     "The tests fetch each statement once from a fresh server; effects of one answer on the next are not seen.",
     ["entity/server/fetch.py", "entity/server/entity_configuration.py", "entity_statement/create.py", "entity/server/__init__.py"],
     [("subordinate statements", "entity/server/fetch.py:Fetch"),
      ("entity configuration", "entity/server/entity_configuration.py"),
      ("signing", "entity_statement/create.py:create_entity_statement")],
     [("subordinate", "registry of subordinates", "entity/server/__init__.py"),
      ("policy", "metadata policies per entity type or subject", "entity/server/__init__.py")],
     ["fetch endpoint", "entity configuration endpoint"])

prop("C08", "A trust mark issuer remembers every mark it issued, also across crashes",
     "Every trust mark the issuer has handed out is reported active by its status service until it expires, "
     "also after restarts with the same files, and listing names exactly the holders of active marks; a mark that was never "
     "issued, or has expired, is never reported active. A crash or disk error during one issuance never affects marks issued before. "
     "A mark handed out names the issuer, the type and the holder asked for and carries the configured claims and lifetime.",
     ["crash_points", "fault_sequences", "histories"],
     "every history of issuing, status, list and find requests with waits, disk errors, torn or lost writes and crash points in between",
     "The tests issue one or two marks and look them up at once in the same process.",
     ["trust_mark_entity/entity.py", "trust_mark_entity/__init__.py", "trust_mark_entity/server/trust_mark_status.py",
      "trust_mark_entity/server/trust_mark_list.py", "trust_mark_entity/server/trust_mark.py"],
     [("mark store", "trust_mark_entity/__init__.py:FileDB, SimpleDB"),
      ("issuing", "trust_mark_entity/entity.py:TrustMarkEntity")],
     [("issued marks", "subject, time of issue, expiry, identifier", "trust_mark_entity/__init__.py")],
     ["status endpoint", "list endpoint", "issue response"])

prop("C09", "A trust mark is accepted only when its issuer, owner and status vouch for it",
     "A trust mark is accepted only if it has not expired, is signed with a key of its issuer as vouched for by a valid trust chain, "
     "the issuer is entitled to issue it according to the trust anchor (directly or through a delegation signed by the mark's owner), "
     "when asked about a particular entity it is about that entity, and when asked to check, the issuer's status service says it is active. "
     "Genuine marks in good standing are accepted.",
     ["inputs", "histories", "fault_sequences"],
     "every mark, genuine or forged, every delegation, every status answer, every history of key rotation, revocation and outages",
     "The tests verify one genuine mark and one genuine delegation.",
     ["entity/function/trust_mark_verifier.py", "entity/__init__.py"],
     [("verification", "entity/function/trust_mark_verifier.py:TrustMarkVerifier"),
      ("status check", "entity/__init__.py:verify_trust_mark")],
     observe=["FederationEntity.verify_trust_mark", "trust_mark_verifier(...)"])

prop("C10", "Automatic registration binds a client to its own verified chain",
     "An authorization or pushed authorization request from an unknown client leads to a registered client only if the client "
     "identifier is the subject of a verified, unexpired trust chain ending in the client's own configuration, and then with the "
     "policy-adjusted metadata and exactly the keys from that chain. A request that carries a trust chain about somebody else, an "
     "invalid or an expired one registers nothing. OpenID Connect authorization requests of clients registered this way are judged "
     "anew each time; the OAuth2 flavours leave a known client as it is. A refused request changes no existing registration, and "
     "none changes that of another client. A request that is signed or authenticated counts only with a key registered for the client. "
     "When nothing is in the way, a client the federation vouches for is registered.",
     ["inputs", "histories", "fault_sequences"],
     "every request, with or without presented chain (genuine, edited, expired, somebody else's), every federation history and network fault",
     "The tests register one honest client per server flavour.",
     ["appserver/oidc/authorization.py", "appserver/oauth2/authorization.py", "appserver/oauth2/pushed_authorization.py",
      "appclient/oidc/authorization.py", "appclient/oauth2/authorization.py"],
     [("automatic registration (OIDC)", "appserver/oidc/authorization.py:do_automatic_registration"),
      ("automatic registration (OAuth2)", "appserver/oauth2/authorization.py"),
      ("pushed authorization", "appserver/oauth2/pushed_authorization.py")],
     [("cdb", "client database of the server", "appserver/__init__.py")],
     ["client database", "endpoint responses"])

prop("C11", "Explicit registration registers what the federation vouches for, on both sides",
     "An explicit registration request registers a client only if the request is itself the last statement of a valid trust chain of the "
     "client it names, signed with a key the client's superior vouches for (not merely one that is in the request), and then with the "
     "metadata and keys that chain yields under its policies, as far as the server supports what is asked for. A refused request leaves "
     "all registrations as they were, and none changes another client's. The server's answer is signed by it, addressed to the client, "
     "names the trust anchor of a valid chain and says what was registered. A client accepts an answer only if it is unexpired, addressed "
     "to the client, issued by the server it asked, signed with a key vouched for by a valid chain of that server to a trust anchor the "
     "client trusts; what the client takes from it obeys the policies of the client's own chain. When nothing is in the way, also after "
     "faults, both sides succeed.",
     ["inputs", "histories", "fault_sequences"],
     "every request and response, genuine, forged, replayed or re-addressed, every federation history and network fault",
     "The tests run one honest registration per server flavour.",
     ["appserver/oidc/registration.py", "appserver/oauth2/registration.py", "appclient/oidc/registration.py",
      "appclient/oauth2/registration.py"],
     [("server side", "appserver/oidc/registration.py:Registration, appserver/oauth2/registration.py"),
      ("client side", "appclient/oidc/registration.py:Registration, appclient/oauth2/registration.py")],
     [("cdb", "client database of the server", "appserver/__init__.py")],
     ["client database", "registration response", "client context after registration"])

prop("C12", "Entities in one process do not influence one another",
     "Trust anchors, keys, policies, registries, endpoints, clients and lifetimes configured for or learned by one entity are never visible "
     "in another entity of the same process, the configuration handed in by a caller is not modified (also not later, when the entity works), and "
     "neither the presence of other entities nor the order in which entities are created nor the interleaving of their work changes "
     "how any of them behaves: what it answers, asks, stores and advertises is what it would be alone in a process.",
     ["configurations", "histories", "schedules"],
     "every set of entities built in one process in any order, through every way of building them, with any operations in between",
     "Tests build one federation per process; state shared between entities shows only with particular orders and omissions.",
     ["utils.py", "build_entity.py", "defaults.py", "entity/__init__.py", "combo/__init__.py", "trust_mark_entity/entity.py"],
     [("default configuration", "defaults.py"), ("construction", "utils.py:make_federation_entity, make_federation_combo"),
      ("builder", "build_entity.py:FederationEntityBuilder")],
     observe=["attributes and answers of each entity, the dictionaries passed in"])

prop("C13", "A resolver tells only what a valid chain under the asked-for anchor shows",
     "A successful resolve response is signed by the resolver, is about the asked-for subject, carries a valid trust chain from that subject to the asked-for "
     "anchor, metadata equal to what that chain yields under its policies, and an expiry not later "
     "than the chain's. When no such chain exists an error is returned; when there is one and all parties answer, so does the resolver, "
     "also after faults.",
     ["histories", "fault_sequences", "inputs"],
     "every subject, anchor and entity type asked for, every federation history and network fault",
     "The tests resolve one entity once.",
     ["entity/server/resolve.py", "entity/function/__init__.py"],
     [("resolve endpoint", "entity/server/resolve.py:Resolve")],
     observe=["resolve endpoint"])

prop("C14", "State that is written out and read back is the same state",
     "What a federation entity or trust mark issuer can export - its contexts (hints, trust marks, priorities, lifetimes), the caches of "
     "configurations and statements, trust chains, the issued trust marks - is plain data that JSON can carry; an instance built from the same "
     "configuration that reads it back behaves from then on as the one that exported it would have: the same answers to every query, the same "
     "requests and resolutions, the same stored and kept chains with the same lifetimes, the same knowledge about issued marks. Exporting works at any "
     "point, also while other threads use the entity, and what has been exported does not change afterwards.",
     ["crash_points", "histories", "schedules"],
     "every history before the export, every point at which it is taken, every sequence of queries after the import",
     "The tests have one round trip of an entity without history.",
     ["entity/__init__.py", "entity/context.py", "entity_statement/cache.py", "entity_statement/statement.py",
      "entity/function/trust_chain_collector.py", "entity/client/entity_configuration.py", "trust_mark_entity/__init__.py", "trust_mark_entity/entity.py"],
     [("contexts", "entity/context.py:FederationContext (idpyoidc ImpExp)"), ("caches", "entity_statement/cache.py:ESCache"),
      ("chains", "entity_statement/statement.py:TrustChain"), ("issued marks", "trust_mark_entity/__init__.py:SimpleDB, FileDB")],
     observe=["answers, requests and state with and without export, crash and import"])

prop("C15", "The chain picked follows the configured priority, independent of order",
     "When several valid chains exist, the one picked - also from kept chains - ends in the first anchor of the node's priority list for which there is a chain, "
     "and among chains to one anchor a shortest one is kept; the choice does not depend on the order in which superiors answered or are listed.",
     ["configurations", "schedules", "fault_sequences"],
     "every federation with several anchors and paths, every priority list, every order of hints and every outage of some superiors",
     "The tests have one or two anchors and never exercise a priority list against several stored chains.",
     ["entity/__init__.py", "entity_statement/statement.py", "appclient/stand_alone_client_entity.py", "appclient/__init__.py"],
     [("choice", "entity/__init__.py:pick_trust_chain, pick_from_stored_trust_chains"),
      ("shortest per anchor", "entity_statement/statement.py:chains2dict")],
     observe=["picked chain"])

prop("C16", "Listing and trawling report exactly the registered subordinates asked for",
     "A list response names exactly the registered subordinates that match all the given filters at that moment, and trawling "
     "from an authority finds exactly the entities of the wanted type reachable through registrations, in a bounded number of requests.",
     ["histories", "configurations", "fault_sequences"],
     "every registry history, every filter combination, every subordinate graph including cycles, every outage",
     "The tests list one fixed registry with single filters.",
     ["entity/server/list.py", "entity/__init__.py", "entity/server/who.py", "entity/client/list.py"],
     [("list endpoint", "entity/server/list.py:List"), ("trawl", "entity/__init__.py:trawl")],
     observe=["list endpoint", "FederationEntity.trawl"])

prop("C17", "No private key material leaves an entity",
     "No answer of an endpoint of an entity - configurations, statements, lists, resolve, trust mark, registration and error answers - and no "
     "request it sends to other entities' federation endpoints, no registration request and no authorization request contains the private part of a key, a symmetric key, or a configured or issued client "
     "secret, under any configuration, history or fault. The one exception is the registration answer, which may tell the client the secret "
     "just issued to it.",
     ["histories", "configurations", "fault_sequences"],
     "everything put on the wire by any entity in every simulated history",
     "Tests look at expected claims only, in a few documents.",
     ["entity_statement/create.py", "entity/context.py", "entity/server/fetch.py", "entity/server/entity_configuration.py",
      "appclient/oidc/registration.py"],
     [("documents", "entity_statement/create.py:create_entity_statement"), ("jwks export", "entity/context.py")],
     observe=["every simulated request and response"])

prop("C18", "Concurrent use gives the result of some serial order",
     "Threads may use one federation entity at the same time: resolving, asking other entities through its client services, answering entity "
     "configuration, fetch, list and resolve requests, issuing trust marks and answering about them. Without faults, each operation then gives what it "
     "gives when it runs alone (issue times and signatures apart) and none fails, hangs or mixes up its answer because of another; under network faults an "
     "operation may fail, but what it answers is (part of) what it answers alone. Every accepted trust chain is sound as in C01 to C04. While an operator edits "
     "the registry of subordinates, a fetched statement or a listing gives the registry as it was at some moment during the request. A trust mark is "
     "reported as active from the moment the operation that issued it returned, not before an operation issuing it began, and marks issued at the same "
     "time are all remembered. When the threads are done every entity still has all its chains.",
     ["schedules", "histories"],
     "every interleaving of threads at the granularity of source lines (some runs: bytecodes) in fedservice and idpyoidc, with faults and registry edits",
     "The tests are single threaded.",
     ["entity/client/__init__.py", "entity/function/trust_chain_collector.py", "entity_statement/cache.py",
      "entity/function/verifier.py", "entity/server/list.py", "entity/server/fetch.py", "trust_mark_entity/__init__.py"],
     [("shared caches", "entity/function/trust_chain_collector.py"), ("shared key jar", "entity/function/verifier.py"),
      ("client request state", "entity/client/__init__.py")],
     [("config_cache / entity_statement_cache", "documents fetched earlier", "entity/function/trust_chain_collector.py")],
     ["results of each operation"])

prop("C19", "Message syntax checks of single messages",
     "A message that lacks a required claim or carries a claim of the wrong type is rejected when verified.",
     ["inputs"], "every message", "Each check is a pure function of one message; tests sample a few.",
     ["message.py"], [("message classes", "message.py")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fp.write(json.dumps(p) + "\n")
