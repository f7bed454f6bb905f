"""A historical inputs loader over a written NEMDE file and hand-filled MMS tables (in memory)."""
import sqlite3

import nemde

LOAD_COLS = ['RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN']


def loader(folder, interval, doc, tables, ocd=False):
    """tables: {name: (columns, rows)} in AEMO's terms; written the way nempy's own set_data / add_data leave them."""
    import pandas as pd
    from nempy.historical_inputs import loaders, mms_db
    nemde.write(doc, folder, interval, ocd)
    con = sqlite3.connect(':memory:')
    db = mms_db.DBManager(connection=con)
    for name, (cols, rows) in tables.items():
        df = pd.DataFrame(rows, columns=cols)
        have = getattr(db, name).table_columns
        for c in have:
            if c not in df.columns:
                df[c] = float('nan')
        df.loc[:, have].to_sql(name, con=con, if_exists='replace', index=False)
    r = loaders.RawInputsLoader(nemde.manager(folder), db)
    with nemde.FakeWeb():
        r.set_interval(interval)
    return r
