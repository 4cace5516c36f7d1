"""The properties and how each is decided; mkmeta.py turns this into properties.jsonl and MANIFEST.json."""
ENT = "src/fedservice/entity/function/"
NOT_APPLICABLE = []

PROPS = [
    dict(
        id="C01", title="Only genuine chains to a configured trust anchor are accepted",
        statement="A sequence of signed statements is accepted as a trust chain only if its first statement is issued by a trust anchor the verifying entity is configured with (or by that entity itself), every statement is issued by the subject of the one before it, each is signed with RS256 by a key its superior's statement lists for its issuer (for the first: a key configured for that anchor), the last is what an entity states about itself (its Entity Configuration), and none has expired; every sequence fulfilling all this, without constraints, is accepted. For an accepted chain the reported anchor, issuer path (leaf first), expiry (the earliest of all statements) and verified contents are those of the statements.",
        over=["inputs"], quant="every sequence of statements, genuine, expired, forged, misdirected or from foreign federations, in any order and length",
        why="Tests verify a handful of correct chains; none presents reordered, foreign, forged, unlinked or expired statements, and acceptance of those can only be ruled out by going through the combinations.",
        files=[ENT + "verifier.py", "src/fedservice/entity_statement/statement.py"],
        mech=[("anchor check, linkage, key of superior, expiry", ENT + "verifier.py: trusted_anchor, verify_trust_chain")],
        technique="exhaustive enumeration of statement sequences on the real verifier against a reference rule",
        level="exploration", note="All sequences up to the stated length over a pool of 44 real signed statements; trusts RS256 in cryptography.",
    ),
    dict(
        id="C02", title="Chain verdicts do not depend on what was processed before",
        statement="The verdict on a chain depends only on the statements in it, the trust anchors and keys the verifying entity is configured with at that moment and the current time. In particular no chain, acceptable or not, that was processed earlier can make keys, anchors or entities trusted for another chain, and a trust anchor given new keys or newly added counts from then on with exactly those keys.",
        over=["histories", "inputs"], quant="every history of verifications, trust anchor changes and passing time, followed by any chain",
        why="Tests use a fresh entity per case; contamination through remembered keys shows only after particular histories.",
        files=[ENT + "verifier.py", ENT + "trust_chain_collector.py"],
        mech=[("keys taken from the chain itself", ENT + "verifier.py: verify_trust_chain"),
              ("trust anchor registry", ENT + "trust_chain_collector.py: add_trust_anchor")],
        technique="explicit-state search over operation histories of the real verifier with a memoryless reference rule",
        level="model_checking", note="All histories up to length 2 unmerged, then breadth-first over distinct entity states; every state probed with 35 chains on the implementation.",
    ),
    dict(
        id="C03", title="A chain of metadata policies never lets through what one of them forbids",
        statement="For every claim, the metadata resulting from a chain satisfies the value, one_of, subset_of, add, default and essential operators of every superior's policy, and superset_of where only one superior uses it, or the chain's policies are refused. Policies combine as intersection for subset_of, one_of and superset_of (empty: refused), union for add, equality for value and default, and essential can be tightened but not relaxed; combinations that contradict each other are refused and all others are accepted, except that a policy fixing a value can below only be repeated or declared essential.",
        over=["inputs", "configurations"], quant="every pair and triple of self-consistent claim policies along a chain and every leaf value, single or list, present or absent",
        why="The 80 or so hand-picked combinations in the tests are a vanishing part of operator sets x operator sets x values, and cover at most two operators interacting.",
        files=[ENT + "policy.py", ENT + "policy_operator.py"],
        mech=[("combination", ENT + "policy.py: combine_claim_policy"), ("operators", ENT + "policy_operator.py")],
        technique="exhaustive enumeration of policy chains and values against a reference semantics",
        level="exploration", note="Complete for the operator domains in checks/c03.py (3 values); list order ignored.",
    ),
    dict(
        id="C04", title="Metadata policies are applied exactly, per entity type, and change nothing else",
        statement="Applying an accepted chain to an entity's metadata yields, for each of its entity types separately, its own metadata overridden by metadata set by superiors and then changed exactly as the combined policy operators say; claims without policy stay as they were, superiors disagreeing on a set claim are refused, and what a superior says about itself has no influence. The statements in the chain are not modified, and doing it again gives the same result.",
        over=["inputs", "configurations"], quant="every chain of up to three superiors' policies and metadata for several entity types, and every leaf configuration of the domain",
        why="Tests check single expected outcomes; interference between claims, entity types, levels and repeated application needs their combinations.",
        files=[ENT + "policy.py", ENT + "policy_operator.py"],
        mech=[("gathering", ENT + "policy.py: TrustChainPolicy.gather_policies"), ("application", ENT + "policy.py: apply_policy, apply_metadata_policy")],
        technique="exhaustive enumeration of chains x leaf metadata against a reference semantics",
        level="exploration", note="Complete for the statement and leaf domains in checks/c04.py.",
    ),
    dict(
        id="C05", title="Constraints set by a superior bind everything below it",
        statement="A chain is accepted only if for every statement with constraints the number of intermediates between its issuer and the leaf does not exceed max_path_length and every entity below its issuer is outside all excluded and, when given, inside at least one permitted name; a subordinate's own constraints can only add to that, and chains fulfilling all constraints are accepted. Names are compared by host name, regardless of scheme, letter case, port and path; a name with a leading dot stands for the proper subdomains.",
        over=["inputs", "configurations"], quant="every chain of up to four superiors, each with any of the constraint sets, for any choice of entity names",
        why="Existing tests exercise the helper functions in isolation and one chain; enforcement across levels, with statements lacking constraints in between, is never tested.",
        files=["src/fedservice/entity_statement/constraints.py", ENT + "verifier.py"],
        mech=[("constraint evaluation", "src/fedservice/entity_statement/constraints.py: meets_restrictions")],
        technique="exhaustive enumeration of constrained chains on the real verifier against a reference rule",
        level="exploration", note="Complete for 15 constraint sets and 6 leaf names, chains signed and verified for real.",
    ),
    dict(
        id="C06", title="Discovery finds every way to a trust anchor; a failing authority loses its own",
        statement="Looking for the trust chains of an entity whose own configuration is available terminates, without an exception and whatever the authority hints look like (loops, self references, duplicates), and returns exactly one chain for each loop free path of authority hints to a configured trust anchor at the top, provided every document on that path is available and correct; an authority (or single document) that is unreachable, answers with an error or garbage, has a bad signature, is expired, misdirected or carries a policy the entity can not fulfil only costs the chains that need it. With a stop_at anchor exactly the chains ending at that anchor result, and with nothing expired no document is fetched twice.",
        over=["configurations", "inputs"], quant="every graph of authorities up to four, choice of trust anchors and single or double fault in their answers",
        why="Tests use one fixed, healthy, loop free federation; faults, loops and alternative paths, and their combinations, are never tried.",
        files=[ENT + "trust_chain_collector.py", ENT + "__init__.py"],
        mech=[("tree collection", ENT + "trust_chain_collector.py: collect_tree, collect_branch"),
              ("tree to chains", ENT + "__init__.py: tree2chains, verify_trust_chains, apply_policies")],
        technique="exhaustive enumeration of authority graphs and fault placements on the real collector and verifier",
        level="fault_enumeration", note="All graphs over three authorities, 11 larger ones with all single faults and pairs; HTTP below requests is replaced.",
    ),
    dict(
        id="C07", title="Nothing expired is used, and nothing remembered hides what is valid now",
        statement="However long an entity has been running and whatever it has fetched and remembered about others before (collected statements, configurations, stored trust chains), every trust chain it returns consists of unexpired statements that were actually served by their issuers, carries their earliest expiry and the metadata following from exactly these statements, and metadata it returns never comes from expired statements; and as long as the federation offers a valid chain, also with keys changed once everything older has expired, it finds one.",
        over=["histories", "schedules"], quant="every history of queries, passing time, changed metadata, policies, keys and admissions in the federation",
        why="Tests never let time pass nor change the federation behind an entity with warm caches.",
        files=["src/fedservice/entity_statement/cache.py", ENT + "trust_chain_collector.py", "src/fedservice/entity/__init__.py"],
        mech=[("caches", "src/fedservice/entity_statement/cache.py: ESCache"),
              ("stored chains", "src/fedservice/entity/__init__.py: get_trust_chains, get_verified_metadata")],
        technique="bounded exhaustive exploration of histories of the real entity under a virtual clock against a federation model",
        level="model_checking", note="All histories up to the stated depth over 14 operations and 4 combinations of lifetimes, executed on the implementation.",
    ),
    dict(
        id="C08", title="An entity states about subordinates and itself exactly what is configured",
        statement="At any time, the entity configuration and the fetch endpoint's answers are signed with the entity's own keys, have the entity as issuer, a plausible lifetime and exactly the contents the operator has configured at that moment: for a registered subordinate its keys, authority hints (the entity itself when none are registered), constraints and either the policy registered for that subordinate or that registered for each of its entity types, and for the entity itself its metadata with endpoints, keys, authority hints and trust marks, whether these are given as lists, in files or computed. Requests about unknown subordinates or other issuers are refused, and no request changes any configuration or later answer.",
        over=["histories", "inputs"], quant="every history of registrations, policy changes, removals and requests",
        why="Tests make single requests; leaks between requests and stale or mutated configuration appear only after specific histories.",
        files=["src/fedservice/entity/server/fetch.py", "src/fedservice/entity/server/entity_configuration.py", "src/fedservice/entity/context.py"],
        mech=[("statements about others", "src/fedservice/entity/server/fetch.py: process_request"),
              ("statement about itself", "src/fedservice/entity/server/entity_configuration.py")],
        technique="bounded exhaustive exploration of operation histories on the real endpoints against a book-keeping model",
        level="model_checking", note="All histories up to the stated depth over 20 operations, then all 9 requests; registrations carry no metadata next to entity type policies.",
    ),
    dict(
        id="C09", title="The list endpoint returns exactly the subordinates meeting all conditions",
        statement="The list endpoint returns exactly the registered subordinates that fulfil all conditions in the request: entity_type is among the registered entity types, intermediate=true only those registered as intermediates, trust_marked=true only those whose correctly signed, unexpired configuration carries an unexpired trust mark about themselves, trust_mark_id only those carrying one with that identifier; no conditions, or conditions set to false, list all. That a subordinate's site fails or misbehaves, or publishes malformed statements or trust marks, does not influence whether others are listed (nor does a malformed trust mark beside a good one whether it is itself).",
        over=["inputs", "configurations"], quant="every set of registered subordinates and their published trust marks, every combination of conditions",
        why="Tests ask for one condition at a time with healthy subordinates; the interaction of conditions, registration attributes and failures needs their product.",
        files=["src/fedservice/entity/server/list.py"],
        mech=[("filtering", "src/fedservice/entity/server/list.py: filter, process_request")],
        technique="exhaustive enumeration of registrations x requests x site faults on the real endpoint against a reference filter",
        level="exploration", note="Complete for the pools in checks/c09.py.",
    ),
    dict(
        id="C10", title="A resolve response states what a valid trust chain to the requested anchor says",
        statement="The resolve endpoint answers a request for a subject and anchor only if the anchor is a configured trust anchor (or the resolver itself) and there is a valid trust chain from the subject to precisely that anchor, and otherwise refuses. The response is signed by the resolver, names it as issuer and the subject as subject, has the metadata resulting from applying that chain's policies (only the requested type, when one is asked for and the subject has it), includes the chain's statements starting with the subject's own configuration, followed on demand by the anchor's genuine configuration, and does not outlive any of these statements. Where such a chain exists it is found, also after earlier requests, passing time and changes in the federation.",
        over=["configurations", "histories", "inputs"], quant="every small federation, choice of anchors, request and history of requests, changes and passing time",
        why="Tests resolve one subject with one anchor once; the wrong anchor, missing chain, several paths, ageing statements and changed policies are not tried.",
        files=["src/fedservice/entity/server/resolve.py", ENT + "__init__.py"],
        mech=[("resolve", "src/fedservice/entity/server/resolve.py: process_request")],
        technique="exhaustive enumeration of federations, requests and histories on the real endpoint, each response independently re-verified",
        level="exploration", note="All graphs over three authorities and all histories up to the stated length over 8 operations.",
    ),
    dict(
        id="C11", title="A trust mark issuer's answers agree with what it has issued",
        statement="A trust mark issuer only issues trust marks it has a specification for, signed by itself, with the claims of that specification, the subject, the time of issue and, when a lifetime is specified, an expiry that much later, however many have been issued before. The status endpoint says active for an identifier and subject exactly when the last trust mark issued for these is not expired, with an iat when that issued at precisely that time is not, and for a trust mark itself when it is one issued and signed by this issuer that is not expired; forged, foreign and never issued ones never are. The list endpoint lists exactly the subjects with an active trust mark. This is the same for both databases, after a restart with the file database, and after moving the records to a new database; the configuration is not modified.",
        over=["histories", "inputs"], quant="every history of issuing trust marks, passing time, restarts and moves",
        why="Tests issue a single trust mark and ask for it; several marks, subjects, expiries and restarts in sequence are never tried.",
        files=["src/fedservice/trust_mark_entity/__init__.py", "src/fedservice/trust_mark_entity/entity.py", "src/fedservice/trust_mark_entity/server/trust_mark_status.py", "src/fedservice/trust_mark_entity/server/trust_mark_list.py"],
        mech=[("databases", "src/fedservice/trust_mark_entity/__init__.py: FileDB, SimpleDB"),
              ("issuing", "src/fedservice/trust_mark_entity/entity.py: create_trust_mark")],
        technique="bounded exhaustive exploration of operation histories on the real issuer against a book-keeping model",
        level="model_checking", note="All histories up to the stated depth over 11 operations on both databases.",
    ),
    dict(
        id="C12", title="Recorded trust marks survive a crash or full disk at any point",
        statement="When the process dies, or the disk fills up, at any point while the file database of a trust mark issuer records a trust mark, loads records or starts up, then all trust marks recorded before are still found as before, those being recorded are each either found or not, nothing else is, and the database can be used and added to afterwards without any loss, also when that is interrupted in turn.",
        over=["crash_points", "histories"], quant="every history of operations and every byte written or file operation at which one of them is interrupted",
        why="No test interrupts a write; half written lines only arise from particular crash points.",
        files=["src/fedservice/trust_mark_entity/__init__.py"],
        mech=[("appending and reading back", "src/fedservice/trust_mark_entity/__init__.py: FileDB")],
        technique="exhaustive enumeration of crash and disk-full points (every byte, every file operation) of the real database on real files",
        level="fault_enumeration", note="Histories of up to two operations before and after, double interruptions; the process dies, not the machine.",
    ),
    dict(
        id="C14", title="A trust mark is accepted only when the anchor's federation stands behind it",
        statement="The trust mark verifier accepts a trust mark for a given trust anchor only if it has an identifier, subject, issuer and time of issue, is not expired, is about the entity asked for (when one is named), its issuer has a valid trust chain to precisely that trust anchor and has signed it with a key which that chain (not some other federation, nor an earlier state of this one beyond the lifetime of its statements) lists for the issuer; if the trust anchor's own, correctly signed configuration names issuers for that identifier the issuer must be one of them, and if it names an owner, or the trust mark carries a delegation, then there must be an unexpired delegation signed by the owner listed there, for precisely this issuer and identifier. Verification that includes the issuer's view accepts only if, in addition, the issuer's status endpoint answers that this very trust mark is active. What is accepted is returned unchanged, and trust marks fulfilling all this are accepted.",
        over=["inputs", "configurations", "histories"], quant="every trust mark, delegation, federation and trust anchor configuration, status answer and history of changes",
        why="Tests verify two good trust marks; forged, foreign, expired, undelegated or revoked ones, and key changes, are never tried.",
        files=[ENT + "trust_mark_verifier.py", ENT + "trust_anchor.py", "src/fedservice/entity/__init__.py"],
        mech=[("trust mark and delegation", ENT + "trust_mark_verifier.py: TrustMarkVerifier"),
              ("the trust anchor's view", ENT + "trust_anchor.py: get_verified_trust_anchor_statement"),
              ("status", "src/fedservice/entity/__init__.py: verify_trust_mark")],
        technique="exhaustive enumeration of deviations from a good trust mark and of histories on the real verifier, judged by an independent reading of the statements",
        level="exploration", note="All combinations of up to 3 (thorough: 4) deviations over 12 dimensions; trust marks issued by trust anchors themselves are left out.",
    ),
    dict(
        id="C15", title="Explicit registration registers what a valid chain makes of the request only",
        statement="An OpenID Provider or Authorization Server registers a client explicitly only if the request is an unexpired Entity Configuration of that client (issuer and subject the same) with metadata for a relying party/OAuth client, signed with keys that a valid trust chain from one of the server's trust anchors lists for the client, where the metadata in the request complies with the policies along that chain. What then is registered, and returned in a response signed by the server, addressed to that client and naming the trust anchor used, is what the chain makes of the metadata in the request (superiors' metadata and policies applied), for the entity type concerned only, together with the client's keys; when several trust anchors are possible the one first in the configured order of priority is used. Requests fulfilling this are accepted whichever chain, cached statements or earlier registrations there are. Anything else is refused and leaves all registrations and the client's keys as they were.",
        over=["inputs", "configurations", "histories"], quant="every federation, trust anchor configuration, registration request and history of requests, policy changes and expulsions",
        why="Tests register one honest client; requests differing from what is published, policies, forgeries, repeated or refused registrations are never tried.",
        files=["src/fedservice/appserver/oidc/registration.py", "src/fedservice/appserver/oauth2/registration.py"],
        mech=[("OpenID Provider", "src/fedservice/appserver/oidc/registration.py: process_request"),
              ("Authorization Server", "src/fedservice/appserver/oauth2/registration.py: process_request")],
        technique="exhaustive enumeration of federations, request deviations and histories on the real registration endpoints against a model of the client database",
        level="exploration", note="All requests with up to 2 (thorough: 3) deviations over 7 dimensions, all histories of up to 3 (4) of 9 operations; client databases in memory.",
    ),
    dict(
        id="C16", title="Automatic registration happens only as a valid chain about that client says",
        statement="On an authentication/authorization or pushed authorization request from a client it doesn't know, an OpenID Provider or Authorization Server supporting automatic registration registers the client only when there is a valid trust chain about precisely that client_id from one of the server's trust anchors: one the server has found itself, or one the client provided in the request that stands up to verification. What is registered is what that chain makes of the client's metadata for the entity type concerned (policies applied), the client's keys are precisely those the chain says (in the metadata, or at the address it gives), so that keys replaced since are no longer accepted once the chain used has expired, and when several trust anchors are possible the one first in the configured order of priority is used. The registration lasts no longer than the statements it is built on: when they have expired the client is evaluated again and refused if it is no longer a member. Clients that registered explicitly are never changed or replaced. A trust chain in the request that is bogus, expired or about someone else neither helps nor harms the one sending it, and refused requests register nothing. The trust chain a client exports can be used in the request, and the request isn't modified.",
        over=["inputs", "configurations", "histories"], quant="every federation, provided trust chain, request endpoint and history of requests, key changes, expulsions and passing time",
        why="Tests register one honest client automatically once; foreign or bogus chains, key changes, expulsion and expiry in sequence are never tried.",
        files=["src/fedservice/appserver/__init__.py", "src/fedservice/appserver/oidc/authorization.py", "src/fedservice/appserver/oauth2/authorization.py", "src/fedservice/appserver/oauth2/pushed_authorization.py", "src/fedservice/entity_statement/statement.py"],
        mech=[("OpenID Provider", "src/fedservice/appserver/oidc/authorization.py: do_automatic_registration"),
              ("Authorization Server", "src/fedservice/appserver/oauth2/authorization.py: do_automatic_registration"),
              ("pushed requests", "src/fedservice/appserver/oauth2/pushed_authorization.py"),
              ("exported chains", "src/fedservice/entity_statement/statement.py: TrustChain.export_chain")],
        technique="exhaustive enumeration of federations, provided chains and histories on the real endpoints against a model of the client database",
        level="exploration", note="All federations of the pool x provided chains x endpoints and all histories up to the stated length; client databases in memory; client_id equal to the entity id.",
    ),
    dict(
        id="C17", title="Registration responses are accepted only from the server asked, if vouched for",
        statement="A relying party or OAuth client accepts the response to an explicit registration request only if it is an unexpired statement about precisely that client, names a trust anchor the client trusts, is issued by the server the client is registering with (when it knows which that is) and signed with a key that a valid trust chain from the issuer to precisely that trust anchor lists for the issuer, the client itself has a valid trust chain to that trust anchor, the metadata in the response is for the client's entity type and complies with the policies along the client's own chain. The metadata then used by the client is precisely what that chain makes of the metadata in the response (superiors' metadata and policies applied). Responses fulfilling this are accepted when the client has one trust chain to that trust anchor; everything else is refused, leaving what the client knew about its registration as it was.",
        over=["inputs", "configurations", "histories"], quant="every pair of places in a federation, registration response and history of responses, policy and key changes and expulsions",
        why="Tests take one honest response; forged or foreign responses, other trust anchors, policies, changed keys and expelled servers are never tried.",
        files=["src/fedservice/appclient/oidc/registration.py", "src/fedservice/appclient/oauth2/registration.py"],
        mech=[("relying parties", "src/fedservice/appclient/oidc/registration.py: parse_federation_registration_response"),
              ("OAuth clients", "src/fedservice/appclient/oauth2/registration.py: parse_federation_registration_response")],
        technique="exhaustive enumeration of federations, response deviations and histories on the real clients, judged by an independent reading of the statements",
        level="exploration", note="All responses with up to 2 (thorough: 3) deviations over 7 dimensions, all histories of up to 3 (4) of 10 operations; clients with several chains to the same anchor only checked for wrong acceptance.",
    ),
    dict(
        id="C18", title="Entities in the same process do not interfere with each other",
        statement="Whatever entities (federation entities, trust anchors, trust mark issuers, relying parties, clients, providers, authorization servers, in combination or on their own) are created in a process, in whichever order and even from the very same specification objects (defaults, services, endpoints, functions and arguments for these, preferences, trust anchors, subordinates, policies, HTTP parameters, entity types, trust mark specifications), and whatever is done with one of them (adding trust anchors, subordinates, policies or trust mark types, changing preferences, asking for preferences or metadata, serving requests, collecting trust chains, issuing trust marks): every other entity trusts the same trust anchors, has the same keys, arguments, parameters, endpoints, metadata, subordinates, policies, issued trust marks and registered clients, gives the same answers and finds the same trust chains, with the same requests, as if it had been alone.",
        over=["configurations", "histories", "schedules"], quant="every pair of entities, order of creation and interleaving of operations on them",
        why="Tests create several entities but never compare with one created alone; what is shared shows only after particular operations on another entity.",
        files=["src/fedservice/utils.py", "src/fedservice/build_entity.py", "src/fedservice/defaults.py", "src/fedservice/combo/__init__.py", ENT + "trust_chain_collector.py", "src/fedservice/trust_mark_entity/entity.py"],
        mech=[("construction", "src/fedservice/utils.py: make_federation_entity, make_federation_combo"),
              ("specifications", "src/fedservice/build_entity.py, src/fedservice/defaults.py"),
              ("combinations", "src/fedservice/combo/__init__.py: Combo")],
        technique="all interleavings of building and operating on pairs of real entities, compared with the same operations on each alone (non-interference)",
        level="model_checking", note="11 kinds of entities, all pairs; up to 1+1 (thorough: 2+1) operations besides creation.",
    ),
    dict(
        id="C22", title="A client uses a provider only as a valid chain about that provider says",
        statement="A stand-alone relying party pointed at an OpenID Provider (by its issuer or by provider info with nothing but the issuer) discovers it only through a valid trust chain about precisely that entity from one of its trust anchors: the one first in the configured order of priority when several are possible. The provider metadata it then uses is precisely what that chain says (superiors' metadata and policies applied) and has to be about an OpenID Provider whose issuer is the one pointed at; the keys it knows for that issuer are precisely those in the metadata (jwks or jwks_uri) and the keys of no other issuer change. Discovery works whenever there is such a chain; otherwise it is refused and the provider info, keys and trust chains known remain as they were. Registration goes by what the chain says is supported: nothing in common means no registration, only automatic in common means no registration request, otherwise (when the client has the federation service for it) one request, signed with the client's federation keys and about itself, goes to the provider's federation registration endpoint. Authorization requests go to the authorization endpoint of the metadata with a request object signed with the client's own keys. Selecting among trust chains, in a list or stored, always goes by the trust anchor priority, and of chains to the same trust anchor the shortest is stored.",
        over=["inputs", "configurations", "histories"], quant="every place in a federation, priority, provider metadata, policy and fault, list of trust chains and history of pointing at providers while the federation changes",
        why="No test exercises the stand-alone client with more than one honest provider and one trust anchor.",
        files=["src/fedservice/appclient/stand_alone_client_entity.py", "src/fedservice/appclient/oidc/authorization.py", "src/fedservice/entity/__init__.py", "src/fedservice/__init__.py", "src/fedservice/entity_statement/statement.py"],
        mech=[("discovery", "src/fedservice/appclient/stand_alone_client_entity.py: do_provider_info"),
              ("registration", "src/fedservice/appclient/stand_alone_client_entity.py: do_client_registration"),
              ("authorization", "src/fedservice/appclient/oidc/authorization.py: _automatic_registration"),
              ("selection", "src/fedservice/entity/__init__.py: pick_trust_chain, pick_from_stored_trust_chains"),
              ("storage", "src/fedservice/__init__.py: save_trust_chains")],
        technique="exhaustive enumeration of federations, lists of trust chains and histories on the real client against a model",
        level="exploration", note="All federations of the pool x anchors x priorities x policies x single and double faults; lists of up to 3 (4) chains; all histories of up to 4 (5) of 12 operations.",
    ),
    dict(
        id="C24", title="Automatic registration works precisely between parties that chains vouch for",
        statement="When a relying party, stand-alone or just a client entity, and an OpenID Provider, or an OAuth client and an authorization server, with automatic registration are in a federation, the client's authorization request is accepted if and only if the client found a valid trust chain about the provider and the provider a valid trust chain about the client, to trust anchors of their own; each goes by its own priority among trust anchors. A request is sent to the provider's authorization endpoint with a request object holding client_id, redirect_uri, state, nonce and everything the client was asked to send, and what the provider makes of it is the same. A client set up for several kinds of automatic registration (authorization_request_endpoints) uses the first of these endpoints that the server says it supports: a request object at the authorization endpoint, or, when the client has that add-on, pushing the request to the pushed authorization request endpoint; without any it sends no request unless it is registered. A request object is accepted only when it's signed with a key in the client's current (chain-verified) metadata, issued by the client and about the client; those signed by other entities, with keys of the federation, with public keys as secrets, tampered with, or with other redirect URIs than the registered are refused, at the authorization, pushed authorization and OAuth2 authorization endpoints. Once older metadata and statements have expired, keys a client has replaced and clients no longer members are refused while new keys and new members are accepted; nothing a client (or someone pretending to be it) sends changes what is registered about another, and nothing refused becomes registered.",
        over=["inputs", "configurations", "histories"], quant="every place of client and provider in a federation, trust anchors, priorities and policies of both, request object and history of requests by two clients, one posing as the other, while keys, membership and policy change",
        why="The tests run one client against one provider in one federation, once, with nobody misbehaving.",
        files=["src/fedservice/appclient/oidc/authorization.py", "src/fedservice/appclient/oauth2/authorization.py", "src/fedservice/appclient/stand_alone_client_entity.py", "src/fedservice/appserver/oidc/authorization.py", "src/fedservice/appserver/oauth2/authorization.py", "src/fedservice/appserver/oauth2/pushed_authorization.py", "src/fedservice/appserver/__init__.py"],
        mech=[("request", "src/fedservice/appclient/stand_alone_client_entity.py: init_authorization, _get_response_type"),
              ("request object", "src/fedservice/appclient/oidc/authorization.py, src/fedservice/appclient/oauth2/authorization.py: _automatic_registration, create_request"),
              ("registration", "src/fedservice/appserver/oidc/authorization.py: do_automatic_registration, client_authentication, find_client_keys"),
              ("trust chains", "src/fedservice/appserver/__init__.py: client_trust_chains")],
        technique="exhaustive enumeration of federations, request objects and histories with real clients and servers against a model",
        level="exploration", note="All places x anchors x priorities x policies; 26 request objects and all pairs at 3 endpoints; clients that are just services at 6 x 6 places and all orders of endpoints x pairs of what servers support; all histories of up to 4 (5) of 10 operations.",
    ),
    dict(
        id="C25", title="Answers are taken in only when signed by the one asked, to the point and valid",
        statement="When a federation entity asks another one for an entity configuration, a subordinate statement, a resolved entity or a trust mark, the answer is handed to the caller only if it is an unexpired JWT of the right form signed by the one asked with a key already known (or, for an entity configuration of somebody unknown, with a key in it; never unsigned claims, other serializations, keys of others or public keys as secrets), issued by the one asked, about the one asked about (and, a trust mark, with the identifier asked for), whatever content type or status code came with it; then the claims handed over are precisely those signed. A refused answer is an error or exception and changes nothing: the keys known for anybody, the entity configurations remembered and the trust anchors stay as they were; an accepted one changes at most what's remembered of the entity asked. Keys of trust anchors and of the entity itself are never changed by answers. Lists are what the entity that's asked says at the endpoint published in its current entity configuration: entity configurations remembered are used no longer than they are valid, so once older ones expired an entity that moved its endpoints or rotated its keys is understood again, and lies told are gone.",
        over=["inputs", "fault_sequences", "histories"], quant="every combination of up to two (three) deviations of the answer to every question, and every history of questions to honest, moving, rotating, lying and failing entities",
        why="Tests only feed services correct answers.",
        files=["src/fedservice/entity/service.py", "src/fedservice/entity/client/__init__.py", "src/fedservice/entity/client/entity_configuration.py", "src/fedservice/entity/client/entity_statement.py", "src/fedservice/entity/client/resolve.py", "src/fedservice/entity/client/list.py", "src/fedservice/entity/client/trust_mark.py", "src/fedservice/message.py", "src/fedservice/entity_statement/cache.py"],
        mech=[("parsing", "src/fedservice/entity/service.py: FederationService.parse_response, gather_verify_arguments"),
              ("subject", "src/fedservice/entity/client/__init__.py: FederationClient.do_request"),
              ("remembering", "src/fedservice/entity/client/entity_configuration.py: post_parse_response"),
              ("expiry", "src/fedservice/entity_statement/cache.py: ESCache")],
        technique="exhaustive enumeration of deviating answers and histories on the real client services against a model",
        level="exploration", note="11 questions x combinations of up to 2 (3) deviations over 9 dimensions; all histories of up to 3 (4) of 13 operations.",
    ),
    dict(
        id="C23", title="Looking for entities finds those that trust chains and trust marks vouch for",
        statement="Going down the tree from a superior by way of one of its subordinates (FederationEntity.trawl) terminates without an exception, whatever the hints and lists look like and whoever fails, and returns, each once: the subordinate, if its metadata according to a valid trust chain in which that superior is its immediate one contains the entity type, and everything that it, and every intermediate it lists and for which the same holds with the lister as immediate superior (and so on), lists for that entity type at the list endpoint in the metadata the trust chain gives it; somebody without such a trust chain contributes nothing, nor does a list that can't be had or isn't one, and that costs nothing but what is only found by way of it. Malformed trust marks, or metadata about credentials, count for nothing and cost nobody else their place. The who endpoint, asked for a trust anchor the entity trusts or for itself (otherwise refused), answers with exactly those entities found that way from that trust anchor's subordinates that have a valid trust chain to precisely that trust anchor with metadata for the entity type asked for (openid_credential_issuer by default), are credential issuers supporting the credential type asked for (when about those) and, when a trust mark identifier is asked for, have in their configuration an accepted and active trust mark with precisely that identifier about themselves. Neither changes any trust anchor or key known for others, except genuine keys learnt from valid trust chains.",
        over=["configurations", "fault_sequences", "inputs"], quant="every graph of authority hints between two trust anchors, two intermediates and two leaves, every single failure or lie (and pairs) of any of them, superiors moving endpoints or contradicting, every set of trust marks and every question",
        why="Only one trawl through one tree is tested, with every authority behaving; failing, looping and lying ones and the who endpoint aren't.",
        files=["src/fedservice/entity/__init__.py", "src/fedservice/entity/server/who.py", "src/fedservice/entity/client/list.py", "src/fedservice/entity/function/trust_anchor.py"],
        mech=[("walk", "src/fedservice/entity/__init__.py: FederationEntity.trawl, list_subordinates"),
              ("selection", "src/fedservice/entity/server/who.py: Who.process_request"),
              ("endpoint", "src/fedservice/entity/function/trust_anchor.py: get_verified_endpoint"),
              ("trust marks", "src/fedservice/entity/__init__.py: FederationEntity.verify_trust_mark")],
        technique="exhaustive enumeration of federation graphs, faults and questions on the real entity against a reading of the graph",
        level="exploration", note="All graphs of 6 entities, all single faults and pairs of those, all trust marks and questions; federations of more levels by small scope.",
    ),
    dict(
        id="C26", title="What clients are told about trust marks is what their issuers have issued",
        statement="Whatever trust marks have been asked for, issued again, self-signed or have expired, and whoever has joined or left the federation: asking a trust mark issuer that's in the federation for a trust mark it has a specification for (do_request trust_mark) yields exactly the trust mark it issued, with the signed JWT at hand, and recorded; asking anybody else, or for something else, yields nothing. Asking for the status at an issuer's status endpoint, by subject and identifier, with time of issue as well, or by handing over the trust mark (then also without being told where: the status endpoint in the metadata a valid trust chain gives the issuer is used), says active exactly when that issuer's records do; forged trust marks, never issued ones and those of other issuers are not. Lists are exactly the subjects with an active trust mark. Verification by anybody in the federation (verify_trust_mark), with and without asking the issuer, accepts exactly the trust marks really issued that haven't expired, unchanged, by issuers in the federation whom the trust anchor recognizes for the identifier. A self-signed trust mark has the claims of its specification, the entity as issuer and subject, an expiry 30 days later, is in the entity configuration from then on, and is accepted only when the trust anchor recognizes the entity as issuer, and not when the issuer is to be asked while it has nowhere to ask.",
        over=["histories", "inputs"], quant="all histories of trust mark requests to two issuers, self-signing, leaving, joining and time passing up to the stated length, and all questions about all trust marks and forgeries of them after each",
        why="The tests hand single queries from client services to server endpoints; what comes back is hardly ever handed on to the client, and never after a sequence of events.",
        files=["src/fedservice/entity/client/trust_mark.py", "src/fedservice/entity/client/trust_mark_status.py", "src/fedservice/entity/client/trust_mark_list.py", "src/fedservice/trust_mark_entity/entity.py", "src/fedservice/trust_mark_entity/server/trust_mark.py", "src/fedservice/trust_mark_entity/server/trust_mark_status.py", "src/fedservice/trust_mark_entity/server/trust_mark_list.py", "src/fedservice/entity/__init__.py"],
        mech=[("asking", "src/fedservice/entity/client/trust_mark.py: TrustMark.get_endpoint, construct_request"),
              ("status", "src/fedservice/entity/client/trust_mark_status.py: TrustMarkStatus.get_request_parameters"),
              ("list", "src/fedservice/entity/client/trust_mark_list.py: TrustMarkList.get_request_parameters"),
              ("self-signed", "src/fedservice/trust_mark_entity/entity.py: SelfSignedTrustMarkEntity.__call__"),
              ("verification", "src/fedservice/entity/__init__.py: FederationEntity.verify_trust_mark")],
        technique="exhaustive exploration of histories of real issuers, holders and verifiers talking to each other, against the record of what was issued",
        level="exploration", note="All histories of 16 operations to depth 3 (thorough 4); longer ones by small scope.",
    ),
    dict(
        id="C19", title="Entities whose configuration is kept in files are what the files say",
        statement="An entity made from configuration (make_federation_combo) that keeps subordinates, authority hints, trust anchors and trust marks in files (the storage classes the documentation configures) behaves according to what's in the files: the fetch endpoint states about exactly the subordinates with a file, with precisely the keys and metadata policies in it, and the list endpoint lists exactly those; the entity configuration, and what the entity says when it registers or registers someone explicitly, has exactly the authority hints and trust marks in the files; and trust chains are found exactly along authority hints and subordinates with the right keys to the trust anchors with a file with the right keys. References to files (strings beginning with file:) anywhere in a configuration that is loaded (load_values_from_file), however nested in objects and lists, are replaced by what the files contain and nothing else is changed. Right after a start, or restart, all of this holds for any content of the files, including none at all. While running, changes of the files are followed at once in statements, lists, authority hints and trust marks; no trust chain is accepted to a trust anchor no longer in the files, or whose keys there have been replaced by others; and statements remembered from before a change are used no longer than they live.",
        over=["configurations", "histories"], quant="all histories of edits of the files of a federation of two trust anchors, an intermediate, a leaf and a verifier, and of restarts, up to the stated length, from no files and from a complete federation",
        why="The tests configure entities with dictionaries in memory; the only one with a directory lists a single subordinate.",
        files=["src/fedservice/utils.py", "src/fedservice/entity/context.py", "src/fedservice/entity/server/fetch.py", "src/fedservice/entity/server/list.py", "src/fedservice/entity/server/entity_configuration.py", "src/fedservice/build_entity.py", "src/fedservice/entity/function/verifier.py", "src/fedservice/appclient/oidc/registration.py", "src/fedservice/appserver/oauth2/registration.py"],
        mech=[("configuration", "src/fedservice/utils.py: make_federation_combo, build_entity_config"),
              ("hints and marks", "src/fedservice/entity/context.py: get_authority_hints, get_trust_marks"),
              ("subordinates", "src/fedservice/entity/server/fetch.py, list.py: process_request"),
              ("trust anchors", "src/fedservice/entity/function/verifier.py: _trust_anchors")],
        technique="exhaustive exploration of histories of file edits and restarts on real entities against a reading of the files",
        level="exploration", note="All histories of 16 edits/restarts to depth 2 (thorough 3) from two starting points, with and without questions in between; what is said when registering for all pairs of 6 contents kept in 3 ways each; 5678 configurations with references to files.",
    ),
    dict(
        id="C20", title="Who an RP says has logged in is who logged in at the provider in that session",
        statement="A stand-alone relying party (found by and registered with an OpenID Provider by means of the federation, automatically or explicitly, whether the provider let it keep its entity ID as client_id or gave it another one) that sends a user to the provider and is sent back an honest response gets: that session's state, the provider's ID Token for the client_id and nonce of that session, the access token the provider issued to that user and precisely the user information the provider has for that user and scope; in each request and when verifying it goes by the client_id it has been given. It says nobody has logged in when: the state is missing or isn't one of a session that it has begun and not cleared; the response is an error, garbled, empty or from or for somebody else; the code is another session's or not accepted; the ID Token isn't signed with the provider's published keys, is unsigned, altered or expired, or names another issuer, client or nonce; the provider answers with an error status, error, garbage or nothing, or there's no access token; the user information isn't the provider's or not about the user in the ID Token. Whatever happens in one session, others are unaffected. At any time a session has an active authentication precisely while the ID Token last received in it is valid, and a valid access token precisely when one was received in it and hasn't expired; user information asked for in a session is about the user of that session; a refreshed token belongs to the same user; a cleared session has nothing; logging out refers to the session's own user and asks for being sent back to the address the caller gives.",
        over=["inputs", "histories", "configurations"], quant="every way to register and authenticate, response type and scope; every deviating response; every history of two sessions",
        why="Existing tests end with the authorization request: nobody ever logs in, let alone with mixed-up sessions, manipulated responses or passing time.",
        files=["src/fedservice/appclient/stand_alone_client_entity.py", "src/fedservice/appclient/__init__.py", "src/fedservice/appclient/oidc/registration.py", "src/fedservice/appclient/oidc/authorization.py"],
        mech=[("logging in", "src/fedservice/appclient/stand_alone_client_entity.py: init_authorization, finalize, finalize_auth, get_access_and_id_token"),
              ("what is known of a session", "src/fedservice/appclient/stand_alone_client_entity.py: has_active_authentication, get_valid_access_token, get_user_info, refresh_access_token, clear_session, logout"),
              ("requests and responses", "src/fedservice/appclient/__init__.py: do_request, service_request, parse_request_response")],
        technique="exhaustive enumeration of logins, pairs of response deviations and session histories of the real client with a real OpenID Provider, against a model of sessions",
        level="exploration", note="Pairs (thorough: triples) of 48 deviations, all histories of up to 3 (4) of 10 operations on two sessions; a token response without ID Token isn't judged, the library allows it.",
    ),
    dict(
        id="C21", title="What isn't well-formed or understood isn't used, and costs only its own chains",
        statement="A statement that, in crit, names an extension claim it contains, or in policy_language_crit a policy operator its metadata policy uses, which is neither defined nor known to the reader, makes every trust chain it is in refused (an entity statement verified by itself likewise, unless told that the extension is known), while extensions nobody declares critical, and declaring defined or known ones critical, change nothing. Whatever a superior states instead of a proper claim value (other JSON types, wrong nesting, nothing at all), looking for trust chains raises no exception, chains it has no part in result unchanged, chains through it are refused when issuer, subject, expiry or keys are affected, and the policies of the others are still enforced in those that are not. Messages of each kind the package defines are accepted and given back unchanged (apart from defaults) when they contain everything required, with the right types and at the right time, and refused when something required is missing or empty, of a type it can't be, expired or issued in the future; a trust mark is refused when verified for another entity, a status request without trust mark must have both subject and trust mark id, a client secret comes with its expiration time.",
        over=["inputs"], quant="every claim of every document of two trust chains, taking values of any JSON type, every combination of extensions and critical lists; every claim of every message class",
        why="Tests verify four entity statements by themselves; malformed or critical statements within federations, next to good alternatives, are never tried.",
        files=[ENT + "verifier.py", ENT + "__init__.py", "src/fedservice/message.py", ENT + "policy.py"],
        mech=[("critical extensions", "src/fedservice/message.py: EntityStatement.verify_critical, Policy.verify, MetadataPolicy.verify"),
              ("chains", ENT + "verifier.py: verify_trust_chain"),
              ("one bad chain among good ones", ENT + "__init__.py: verify_trust_chains, apply_policies"),
              ("message contents", "src/fedservice/message.py: c_param, verify")],
        technique="exhaustive enumeration of deviations of documents and messages, judged by an independent table of what is required, on the real collector, verifier and message classes",
        level="exploration", note="One document deviating arbitrarily, pairs of documents with extensions (thorough: pairs of malformed claims); whether malformed policies or constraints are refused or ignored is not judged.",
    ),
    dict(
        id="C13", title="Simultaneous requests get what the same requests one after the other get",
        statement="When two requests are dealt with at the same time, in two threads of one process, by the same entity - looking for trust chains, verified metadata or entity configurations (with nothing remembered, with everything remembered, or with some or all of it expired), answering fetch and list requests while subordinates are added or removed, resolving, issuing trust marks and answering status and list requests about them (also two processes sharing the database files), verifying trust marks, explicit registration, authorization and pushed authorization requests of new, registered or expired automatic clients (of which one may be unacceptable), discovering a provider, beginning and finishing logins - both get the answers that they get in one of the two orders of dealing with them one after the other, and so does whatever is asked afterwards. In particular nothing expired, half-registered or meant for the other request is ever used, no request fails because of the other, and nothing one of them has stored is lost.",
        over=["schedules", "histories"], quant="every schedule of the two threads with one change of thread before any line of the package's code (thorough: two), every pair of requests and state",
        why="The tests never run two things at once; the results depend on where exactly one thread is interrupted by the other.",
        files=[ENT + "trust_chain_collector.py", "src/fedservice/entity_statement/cache.py", "src/fedservice/entity/server/list.py", "src/fedservice/trust_mark_entity/__init__.py", "src/fedservice/appserver/__init__.py", "src/fedservice/appserver/oidc/authorization.py", "src/fedservice/appserver/oauth2/registration.py", "src/fedservice/appclient/stand_alone_client_entity.py"],
        mech=[("caches", ENT + "trust_chain_collector.py: _get_entity_statement; src/fedservice/entity_statement/cache.py: ESCache"),
              ("subordinates and trust marks while they are listed", "src/fedservice/entity/server/list.py: process_request; src/fedservice/trust_mark_entity/__init__.py: SimpleDB, FileDB"),
              ("clients while they are registered", "src/fedservice/appserver/__init__.py: replace_client_keys, forget_client; src/fedservice/appserver/oauth2/registration.py: client_registration_setup; src/fedservice/appserver/oidc/registration.py: non_fed_process_request")],
        technique="systematic exploration of all schedules up to a preemption bound, of two threads of the real code under a controlled scheduler",
        level="exploration", note="Two threads, one preemption (thorough: two) before lines of fedservice's own code; what libraries do between two such lines is one step.",
    ),
    dict(
        id="C27", title="What has been saved and is loaded again is what it was",
        statement="An entity that starts with what an entity with the same identity and trust anchors has saved with dump, as JSON - the collector's caches of statements and configurations, the trust chains stored about others and the federation context - gives, whatever is asked, however much time passes and whatever changes in the federation before and afterwards, the same answers (trust chains with anchor, path, expiry, statements, combined policy and metadata, exported chains, verified metadata, entity configurations with authority hints, lifetime and trust marks) as the one that has saved would have given, and fetches precisely the same documents; what is saved again right after loading is the same, and using what has been loaded changes neither what was saved nor the entity that saved it.",
        over=["histories", "crash_points", "configurations"], quant="every history of questions, changes in the federation and passing time up to the stated length, a restart after any of them, and all combinations of values of a federation context",
        why="The tests dump and load only in a test that doesn't run any more, and never ask the one restarted anything.",
        files=["src/fedservice/entity_statement/cache.py", "src/fedservice/entity_statement/statement.py", "src/fedservice/entity/context.py", ENT + "trust_chain_collector.py"],
        mech=[("caches", "src/fedservice/entity_statement/cache.py: ESCache"),
              ("trust chains", "src/fedservice/entity_statement/statement.py: TrustChain"),
              ("context", "src/fedservice/entity/context.py: FederationContext")],
        technique="bounded exhaustive exploration of histories with restarts, in lock step on a real entity that's restarted and one that isn't",
        level="exploration", note="All histories of 12 operations to length 3 (thorough 4) followed by 6 questions, restarted at any point and before the questions.",
    ),
    dict(
        id="C28", title="What is kept in directories is published as it is",
        statement="A statement made from a directory (FSFetchEntityStatement.create_entity_statement) is, whatever was asked for or stood in the files before, issued by the issuer the directory belongs to (named by its host name), about the subject asked for (a host name, possibly with a port, or a quoted https identifier), signed with RS256 and a key of the issuer's, valid from now, carries the subject's keys from its jwks.json (those in it when the object first needed them, or newer), public parts only, and as metadata, metadata_policy, constraints and authority_hints what metadata.json, policy.json, constraints.json and authority.json of that subject contain at that moment, nothing where there's no such file, and nothing of other subjects'. FSPublisher answers requests for https://<host>/.well-known/openid-federation with the statement of <host> about itself, and other requests with the statement of the host requested about the subject in the query parameter sub; an entity that uses one to fetch finds precisely the trust chains, with the metadata, of the federation the directories describe, also when a directory is missing.",
        over=["inputs", "histories", "configurations"], quant="every combination of contents of the files of a subject and of another one, every history of requests and edits of the files up to the stated length, and every federation of up to five entities kept in directories, with any one directory missing",
        why="Tests read two fixed directories and look at a few claims; subjects with quoted names, requests in sequence, edits and the publisher's fetch requests are never tried.",
        files=["src/fedservice/fetch_entity_statement/__init__.py", "src/fedservice/fetch_entity_statement/fs2.py", "src/fedservice/entity_statement/create.py"],
        mech=[("files to statements", "src/fedservice/fetch_entity_statement/fs2.py: FSFetchEntityStatement.gather_info; src/fedservice/fetch_entity_statement/__init__.py: create_entity_statement"),
              ("requests to statements", "src/fedservice/fetch_entity_statement/fs2.py: FSPublisher")],
        technique="bounded exhaustive exploration of directory contents, request and edit histories, and federations, on the real code against a reading of the files",
        level="exploration", note="All 81 contents of two subjects' directories at a time; all histories of 14 operations to length 3 (thorough 4); 270 authority graphs x anchors x policies x single missing directories.",
    ),
    dict(
        id="C29", title="Entities are put together from precisely what their specification says",
        statement="An entity made by make_federation_entity or make_federation_combo has exactly the services, endpoints and functions specified, each of the class and made with the arguments given for it: the default ones when nothing is specified, none for an empty list, those named in a list (as the distribution defines them) and those specified in full, in a dictionary or in a dictionary in a list (which take precedence over ones of the same name), with arguments from init_kwargs and then item_args for that kind and name added or replaced and those for other kinds or names ignored. Every endpoint is at the entity's identifier followed by its path; the metadata and the signed entity configuration list precisely the endpoints that have a metadata name, with their addresses and authentication methods, and the preferences. The entity trusts precisely the trust anchors given and knows their keys, lists and makes statements about precisely the subordinates given, with the metadata policies given for each of them or its entity types, and states precisely the authority hints and trust marks given (each of these as values or as a class that provides them, as far as the function takes it). Neither how the other parts are specified nor the order of things matters, and the specification given for services, endpoints, functions and their arguments isn't changed.",
        over=["configurations"], quant="every set of names and specification of one's own of services, endpoints and functions, every way to give arguments, and every combination of what else an entity can be given",
        why="Tests build a few dozen configurations, all with lists of names, and none with arguments or components of one's own.",
        files=["src/fedservice/build_entity.py", "src/fedservice/utils.py", "src/fedservice/defaults.py", "src/fedservice/entity/__init__.py"],
        mech=[("specifications", "src/fedservice/utils.py: build_entity_config; src/fedservice/defaults.py: federation_services, federation_endpoints, federation_functions"),
              ("arguments", "src/fedservice/build_entity.py: FederationEntityBuilder.add_services, add_endpoints, add_functions"),
              ("what else there is", "src/fedservice/utils.py: make_federation_entity, make_federation_combo")],
        technique="exhaustive enumeration of specifications, building real entities, against a reading of the specification",
        level="exploration", note="All 127/255/15 sets of names, own components, 9 ways to give arguments, 2 builders, 2 identifiers; triples of forms; all 2160 combinations of the rest x 2 builders.",
    ),
    dict(
        id="C30", title="Authorization servers register only addresses a client may be sent to, with secrets of its own",
        statement="An authorization server registers an OAuth client explicitly (given a valid trust chain, see C15) only if each of its redirect URIs is allowed: for a native client one with a scheme of its own or http at localhost or 127.0.0.1; for any other client one with https, or with http if code is its only response type, and without fragment. Each policy_uri, logo_uri and tos_uri has to be at the scheme, host and port of one of the redirect URIs, request_uris have no query and post_logout_redirect_uri no fragment; a client for which all this is so is registered, with precisely these redirect URIs in that order (query parameters included) and these pages and request URIs (with their fragments). Otherwise nothing is registered and other clients stay as they are. Each registration yields a new client_id and a secret (at least 32 characters) different from all others, whatever the client's metadata says about these, both known to the server afterwards as said in the response, the secret also as that client's only symmetric key, with the time of issuance, and an expiry as far ahead as configured (30 days by default, none if secrets don't expire); later registrations, also of the same client, change nothing of it.",
        over=["inputs", "histories", "configurations"], quant="every sequence of redirect URIs of 14 kinds up to the stated length for every kind of client and response types, every combination of other addresses, and every history of registrations with each configuration",
        why="Tests register a single well behaved client.",
        files=["src/fedservice/appserver/oauth2/registration.py"],
        mech=[("redirect URIs", "src/fedservice/appserver/oauth2/registration.py: verify_redirect_uris, do_client_registration"),
              ("identifiers and secrets", "src/fedservice/appserver/oauth2/registration.py: client_registration_setup, add_client_secret, client_secret_expiration_time")],
        technique="exhaustive enumeration of client metadata and registration histories on a real authorization server against a table of what's allowed",
        level="exploration", note="All sequences of one or two (thorough: three) of 14 redirect URIs x 3 kinds of clients x 4 response types; 5^3 page addresses; all histories of two clients to length 3 (4) x 4 configurations.",
    ),
    dict(
        id="C31", title="Explicit registration works precisely between parties that chains vouch for",
        statement="What a client (relying party or OAuth client) sends to be registered explicitly is, at any time, an Entity Configuration of its own: signed with its federation keys, itself issuer and subject, issued now and unexpired, with its metadata (as configured or, once registered, as registered), its keys, and the authority hints and trust marks configured at that moment, whether as lists or computed. A server registers the client precisely when the chains from the client to one of the server's trust anchors and the policies along one of them allow it (going by the anchor first in its order of priority). The client takes its answer in precisely when the trust anchor named in it is one of its own and both the server and the client itself have a valid chain to it. What the client then goes by - client_id, secret, contacts, name - is what the server has registered, with its superiors' policies applied. All this holds in whatever way the registration service is placed in the client, for repeated registrations and after changes of the client's configuration or of who the superiors vouch for.",
        over=["inputs", "histories", "configurations"], quant="every pair of federation structures x trust anchors on both sides x priorities x policies, every placement x kinds of trust marks on both sides, and every history of registrations, changes, expulsions and passing time up to the stated length, for both protocols",
        why="Tests register one client at one server; what is asked, answered and taken in only shows over all pairings and histories.",
        files=["src/fedservice/appclient/oidc/registration.py", "src/fedservice/appclient/oauth2/registration.py",
               "src/fedservice/appserver/oidc/registration.py", "src/fedservice/appserver/oauth2/registration.py",
               "src/fedservice/entity/context.py"],
        mech=[("the request", "src/fedservice/appclient/oidc/registration.py, oauth2/registration.py: create_entity_statement"),
              ("the answer", "src/fedservice/appserver/oidc/registration.py, oauth2/registration.py: process_request; src/fedservice/entity/context.py: create_entity_statement"),
              ("taking it in", "src/fedservice/appclient/oauth2/registration.py: parse_federation_registration_response, update_service_context")],
        technique="exhaustive enumeration of federations, configurations and registration histories of real clients and servers joined end to end, against the set of paths in the federation",
        level="exploration", note="5x5 (thorough: 8x8) structures x anchors x priorities x policies; 3 placements x 3x3 kinds of trust marks; all histories of 7 operations to length 3 (4), both protocols.",
    ),
]
