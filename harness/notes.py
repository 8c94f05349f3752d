TECHNIQUE = "TLA+ model checked with TLC; its behaviours replayed into the library; every observed load judged by a TLA+ trace specification"
NOTE = ("The model is explored exhaustively within its constants, each explored document is loaded by the real library in both "
        "formats, and seeded documents beyond the bounds are judged by the same specification. Trusts the writer of documents and "
        "the projection of results (harness/render.py, harness/worker.py) and TLC.")
NOTES = {}
MISSING = {}
