SPECIFICATION Safe
INVARIANT Optimal Bracket Awake Asked Counts Leads BestFirst Partials Agrees
PROPERTY Takes Tight
