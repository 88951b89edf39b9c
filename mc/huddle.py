"""Runs the huddle test and takes its results from the report it writes (a stand-in records what is put into it)."""
import gemlog.huddle_test as ht
import matplotlib.figure
import matplotlib.pyplot as plt


class Report:
    """stands in for the PDF report"""
    made = []

    def __init__(self, *a, **k):
        self.lists, self.tables = [], []
        Report.made.append(self)

    def import_list(self, x):
        self.lists.append([str(v) for v in x])

    def import_df(self, df, sn):
        self.tables.append(df.copy())

    def __getattr__(self, name):
        return lambda *a, **k: None


def recorded(f):
    """-> (what f returned, results from its report or None)"""
    real = ht.PDF
    ht.PDF = Report
    Report.made = []
    matplotlib.figure.Figure.savefig = lambda *a, **k: None
    matplotlib.figure.Figure.tight_layout = lambda *a, **k: None
    try:
        r = f()
    finally:
        ht.PDF = real
        plt.close('all')
    if len(Report.made) != 1 or len(Report.made[0].lists) < 5 or len(Report.made[0].tables) != 2:
        return r, None
    p = Report.made[0]
    return r, dict(errors=p.lists[0] + p.lists[3], warnings=p.lists[1] + p.lists[4], notes=p.lists[2], group_notes=sum(p.lists[5:], []), results=p.tables[0], stats=p.tables[1])


def verify(*a, **k):
    return recorded(lambda: ht.verify_huddle_test(*a, **k))
