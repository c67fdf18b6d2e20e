"""Compiles, with single-threaded calls, what numba compiles lazily, so that forked workers need not."""
import pickle
import warnings

import numpy as np
import pandas as pd


def warm():
    warnings.simplefilter("ignore")
    from wildwood import ForestClassifier, ForestRegressor

    rng = np.random.RandomState(0)
    X = rng.randn(60, 3)
    X[:, 1] = rng.randint(0, 4, 60)
    X[5, 0] = np.nan
    df = pd.DataFrame({"a": X[:, 0], "b": rng.choice(list("xyz"), 60), "c": rng.randint(0, 50, 60),
                       "d": rng.randint(0, 50, 60).astype(np.int32),
                       "e": rng.randn(60).astype(np.float32)})
    y = rng.randint(0, 3, 60)
    for data in (X, np.asfortranarray(X), df):
        f = ForestClassifier(n_estimators=1, random_state=0).fit(data, y)
        f.predict_proba(data)
        f.apply(data)
        g = ForestRegressor(n_estimators=1, random_state=0).fit(data, y.astype(float))
        g.predict(data)
        g.apply(data)
    for dt in (np.float32, np.int64, np.int32):
        Z = (rng.randn(60, 3) * 50).astype(dt)
        for Z_ in (Z, np.asfortranarray(Z)):
            ForestClassifier(n_estimators=1, random_state=0).fit(Z_, y).predict_proba(Z_)
    try:
        f.step = 2.0
        f.dirichlet = 1.0
        g.step = 2.0
        g._weighted_depth(df)
        pickle.loads(pickle.dumps(f)).predict_proba(df)
        pickle.loads(pickle.dumps(g)).predict(df)
    except Exception:
        pass  # judged by the checks, not here
