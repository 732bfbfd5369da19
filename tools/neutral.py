"""Edits that keep the behaviour: every check has to stay quiet on them.

    neutral.py [NAME...]     (run by hand; no check uses this)
"""
import os, shutil, subprocess, sys, tempfile

EV = 'kamrecsys/data/event.py'
ES = 'kamrecsys/data/event_with_score.py'
DB = 'kamrecsys/data/base.py'
BB = 'kamrecsys/base/base.py'
MF = 'kamrecsys/score_predictor/matrix_factorization.py'
TM = 'kamrecsys/score_predictor/topic_model.py'
IM = 'kamrecsys/item_finder/matrix_factorization.py'
IB = 'kamrecsys/item_finder/base.py'
SP = 'kamrecsys/model_selection/split.py'
LD = 'kamrecsys/datasets/base.py'
KX = 'kamrecsys/utils/kamexputils.py'
XU = 'scripts/exp_recsys_util.py'
FM = 'scripts/exp_recsys_fold_merge.py'
ST = 'scripts/stats_recsys.py'

DATA = 'C01 C02 C03 C05 C10'.split()
MODEL = 'C04 C05 C06 C07 C08 C13 C14'.split()
EXP = 'C13 C14 C15 C16 C17'.split()
N = {}

N['to_iid_rows'] = (DATA + ['C07', 'C13'], [(EV,
"""        if ev.ndim == 1 and ev.shape[0] == self.s_event:
            new_ev = np.array(
                [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
                 for e in xrange(self.s_event)], dtype=int)
        elif""",
"""        def convert(e, eid):
            otype = self.event_otypes[e]
            try:
                return self.iid[otype][eid]
            except KeyError:
                return missing_values[e]

        if ev.ndim == 1 and ev.shape[0] == self.s_event:
            new_ev = np.fromiter(
                (convert(e, ev[e]) for e in xrange(self.s_event)), dtype=int)
        elif"""), (EV,
"""            new_ev = np.empty_like(ev, dtype=int)
            for e in xrange(self.s_event):
                iid = self.iid[self.event_otypes[e]]
                new_ev[:, e] = [iid.get(i, missing_values[e])
                                for i in ev[:, e]]
""",
"""            new_ev = np.empty(ev.shape, dtype=int)
            for row in xrange(ev.shape[0]):
                for e in xrange(self.s_event):
                    new_ev[row, e] = convert(e, ev[row, e])
""")])

N['set_event_locals'] = (DATA + MODEL, [(EV,
"""        n_objects = np.zeros(self.n_otypes, dtype=int)
        eid = np.tile(None, self.n_otypes)
        iid = np.tile(None, self.n_otypes)
        for otype in xrange(self.n_otypes):
            n_objects[otype], eid[otype], iid[otype] = (
                self._gen_id(event[:, self.event_otypes == otype]))

        iid_event = np.empty_like(event, dtype=int)
        for e in xrange(self.s_event):
            iid_event[:, e] = [
                iid[self.event_otypes[e]][i] for i in event[:, e]]

        if event_feature""",
"""        tables = [self._gen_id(event[:, self.event_otypes == otype])
                  for otype in xrange(self.n_otypes)]
        n_objects = np.array([t[0] for t in tables], dtype=int)
        eid = np.tile(None, self.n_otypes)
        iid = np.tile(None, self.n_otypes)
        for otype, t in enumerate(tables):
            eid[otype], iid[otype] = t[1:]
        columns = []
        for e, otype in enumerate(self.event_otypes):
            columns.append([iid[otype][i] for i in event[:, e]])
        iid_event = np.array(columns, dtype=int).T.copy()

        if event_feature"""), (ES,
"""        score = np.array(score)
        if score_domain is None:
            score_domain = [
                np.min(score),
                np.max(score),
                np.min(np.diff(np.unique(score)))]
""",
"""        score = np.array(score)
        if score_domain is None:
            levels = np.unique(score)
            score_domain = [
                levels[0], levels[-1], np.min(levels[1:] - levels[:-1])]
""")])

N['filter_inverse'] = (DATA + MODEL, [(EV,
"""            sub_index = np.unique(data.event[:, data.event_otypes == otype])

            # update iid's in an event set
            table = self._gen_id_substitution_table(self.eid[otype], sub_index)
            data.event[:, self.event_otypes == otype] = table[
                data.event[:, self.event_otypes == otype]]
""",
"""            columns = np.nonzero(self.event_otypes == otype)[0]
            sub_index, inverse = np.unique(
                data.event[:, columns], return_inverse=True)
            data.event[:, columns] = inverse.reshape(
                data.event.shape[0], len(columns))
""")])

N['filter_helper'] = (DATA + MODEL, [(EV,
"""            # filter object info
            data.eid[otype] = self.eid[otype][sub_index]
            data.iid[otype] = {k: i for (i, k) in enumerate(data.eid[otype])}
            data.n_objects[otype] = data.eid[otype].shape[0]
            if self.feature[otype] is not None:
                data.feature[otype] = self.feature[otype][sub_index]

        # filter out event features
        if self.event_feature is not None:
            data.event_feature = self.event_feature[filter_cond]

        return data
""",
"""            self._select_objects(data, otype, sub_index)

        # filter out event features
        if self.event_feature is not None:
            data.event_feature = np.array(self.event_feature[filter_cond])

        return data

    def _select_objects(self, data, otype, sub_index):
        \"\"\"filter object info\"\"\"
        data.eid[otype] = np.take(self.eid[otype], sub_index)
        data.iid[otype] = dict(
            zip(data.eid[otype], range(len(data.eid[otype]))))
        data.n_objects[otype] = len(sub_index)
        feature = self.feature[otype]
        if feature is not None:
            data.feature[otype] = feature[sub_index]
""")])

N['gen_id'] = (DATA + MODEL, [(DB,
"""        eid = np.unique(event)
        iid = {k: i for (i, k) in enumerate(eid)}

        return len(eid), eid, iid
""",
"""        eid = np.unique(np.asarray(event).ravel())
        iid = dict()
        for i in range(eid.size):
            iid[eid[i]] = i

        return eid.size, eid, iid
""")])

N['score_rewrites'] = (DATA + ['C08', 'C13', 'C17'], [(ES,
"""        self.score = np.where(self.score <= score_thresh, 0, 1)
        self.score_domain = np.array([0, 1, 1])
        self.n_score_levels = 2
""",
"""        binary = (self.score > score_thresh).astype(int)
        self.n_score_levels = 2
        self.score_domain = np.array((0, 1, 1))
        self.score = binary
"""), (ES,
"""        digitized_scores = score
        if digitized_scores is None:
            digitized_scores = np.digitize(self.score, bins) - 1
        else:
            digitized_scores = np.digitize(score, bins) - 1

        return digitized_scores
""",
"""        target = self.score if score is None else score

        return np.searchsorted(bins, target, side='right') - 1
""")])

N['init_coef_bincount'] = (MODEL, [(f,
"""        for i in xrange(n_users):
            j = np.nonzero(ev[:, 0] == i)[0]
            if len(j) > 0:
                self.bu_[i] = np.sum(sc[j] - self.mu_[0]) / len(j)
        for i in xrange(n_items):
            j = np.nonzero(ev[:, 1] == i)[0]
            if len(j) > 0:
                self.bi_[i] = (
                    np.sum(sc[j] - (self.mu_[0] + self.bu_[ev[j, 0]])) /
                    len(j))
""",
"""        count = np.bincount(ev[:, 0], minlength=n_users)
        total = np.bincount(
            ev[:, 0], weights=sc - self.mu_[0], minlength=n_users)
        self.bu_[:] = total / np.maximum(count, 1)
        count = np.bincount(ev[:, 1], minlength=n_items)
        total = np.bincount(
            ev[:, 1], weights=sc - (self.mu_[0] + self.bu_[ev[:, 0]]),
            minlength=n_items)
        self.bi_[:] = total / np.maximum(count, 1)
""") for f in (MF, IM)])

N['pmf_views'] = (MODEL, [(MF,
"""        # set array's view
        mu = coef.view(self._dt)['mu'][0]
        bu = coef.view(self._dt)['bu'][0]
        bi = coef.view(self._dt)['bi'][0]
        p = coef.view(self._dt)['p'][0]
        q = coef.view(self._dt)['q'][0]

        # loss term
        esc = (mu[0] + bu[ev[:, 0]] + bi[ev[:, 1]] +
               np.sum(p[ev[:, 0], :] * q[ev[:, 1], :], axis=1))
        loss = np.sum((sc - esc)**2)
""",
"""        mu, bu, bi, p, q = self._views(coef)

        # loss term
        users, items = ev[:, 0], ev[:, 1]
        residuals = sc - (mu[0] + bu[users] + bi[items] +
                          np.einsum('ij,ij->i', p[users], q[items]))
        loss = np.dot(residuals, residuals)
"""), (MF,
"""    def loss(self, coef, ev, sc, n_objects):
""",
"""    def _views(self, coef):
        view = coef.view(self._dt)
        return [view[name][0] for name in ('mu', 'bu', 'bi', 'p', 'q')]

    def loss(self, coef, ev, sc, n_objects):
""")])

N['pmf_closure'] = (MODEL, [(MF,
"""        res = minimize(
            fun=self.loss,
            x0=self._coef,
            args=(ev, sc, n_objects),
            method=optimizer_method,
            jac=self.grad_loss,
            **optimizer_kwargs)
""",
"""        res = minimize(
            lambda x: (self.loss(x, ev, sc, n_objects),
                       self.grad_loss(x, ev, sc, n_objects)),
            self._coef.copy(), jac=True, method=optimizer_method,
            **optimizer_kwargs)
""")])

N['pmf_optimize_module'] = (MODEL, [(MF,
"""        res = minimize(
""",
"""        res = optimize.minimize(
"""), (MF, "from scipy.optimize import minimize\n", "from scipy import optimize\n")])

N['pmf_learned_helper'] = (MODEL, [(MF,
"""        # get parameters
        self._coef[:] = res.x

        # add parameters for unknown users and items
        self.mu_ = self._coef.view(self._dt)['mu'][0].copy()
        self.bu_ = np.r_[self._coef.view(self._dt)['bu'][0], 0.0]
        self.bi_ = np.r_[self._coef.view(self._dt)['bi'][0], 0.0]
        self.p_ = np.r_[self._coef.view(self._dt)['p'][0],
                        np.zeros((1, self.k), dtype=float)]
        self.q_ = np.r_[self._coef.view(self._dt)['q'][0],
                        np.zeros((1, self.k), dtype=float)]
""",
"""        learned = np.array(res.x, dtype=float).view(self._dt)[0]

        # add parameters for unknown users and items
        self.mu_ = np.array(learned['mu'])
        for name in ('bu', 'bi'):
            setattr(self, name + '_', np.append(learned[name], 0.0))
        for name in ('p', 'q'):
            setattr(self, name + '_', np.vstack(
                [learned[name], np.zeros(self.k)]))
""")])

N['plsa_helpers'] = (MODEL, [(TM,
"""        # p[x | z]
        self.pXgZ_ = (
            np.array([
                         np.bincount(
                             ev[:, 0],
                             weights=self._q[:, k],
                             minlength=n_objects[0]
                         ) for k in xrange(self.k)]).T +
            self.alpha)
        self.pXgZ_ /= self.pXgZ_.sum(axis=0, keepdims=True)

        # p[y | z]
        self.pYgZ_ = (
            np.array([
                         np.bincount(
                             ev[:, 1],
                             weights=self._q[:, k],
                             minlength=n_objects[1]
                         ) for k in xrange(self.k)]).T +
            self.alpha)
        self.pYgZ_ /= self.pYgZ_.sum(axis=0, keepdims=True)

        # p[z]
        self.pZ_ = np.sum(self._q, axis=0) + self.alpha
        self.pZ_ /= np.sum(self.pZ_)
""",
"""        self.pXgZ_ = self._smoothed(ev[:, 0], n_objects[0])
        self.pYgZ_ = self._smoothed(ev[:, 1], n_objects[1])

        # p[z]
        pZ = self._q.sum(axis=0) + self.alpha
        self.pZ_ = pZ / pZ.sum()

    def _smoothed(self, index, size):
        counts = np.zeros((size, self.k), dtype=float)
        np.add.at(counts, index, self._q)
        counts += self.alpha
        return counts / counts.sum(axis=0)
""")])

N['plsa_while'] = (MODEL, [(TM,
"""        for iter_no in xrange(maxiter):

            # E-Step

            # p[z | r, y, z]
            self._q = (
                self.pZ_[np.newaxis, :] *
                self.pRgZ_[sc, :] *
                self.pXgZ_[ev[:, 0], :] *
                self.pYgZ_[ev[:, 1], :])
            self._q /= (self._q.sum(axis=1, keepdims=True))

            # M-step
            self.maximization_step(ev, sc, n_objects)

            # check loss
            cur_loss = self.loss(ev, sc)
            n_iterations = iter_no + 1
""",
"""        while n_iterations < maxiter:

            # E-Step
            self.expectation_step(ev, sc)

            # M-step
            self.maximization_step(ev, sc, n_objects)

            # check loss
            cur_loss = self.loss(ev, sc)
            n_iterations += 1
"""), (TM,
"""    def maximization_step(self""",
"""    def expectation_step(self, ev, sc):
        joint = self.pXgZ_[ev[:, 0]] * self.pYgZ_[ev[:, 1]]
        joint = joint * self.pRgZ_[sc] * self.pZ_
        self._q = joint / joint.sum(axis=1)[:, np.newaxis]

    def maximization_step(self""")])

N['plsa_init'] = (MODEL, [(TM,
"""        a = np.empty((self.n_score_levels, self.k), dtype=float)
        for r in xrange(self.n_score_levels):
            for k in xrange(self.k):
                if (k % self.n_score_levels) == r:
                    a[r, k] = 1000.0
                else:
                    a[r, k] = 1.0

        self._q = np.empty((self.n_events, self.k), dtype=float)
        for i in xrange(self.n_events):
            self._q[i, :] = self._rng.dirichlet(alpha=a[sc[i], :])
""",
"""        nl = self.n_score_levels
        k = np.arange(self.k) % nl
        a = np.where(np.arange(nl)[:, np.newaxis] == k, 1000.0, 1.0)

        rng = self._rng
        self._q = np.array([rng.dirichlet(a[s]) for s in sc]).reshape(
            self.n_events, self.k)
""")])

N['plsa_predict'] = (MODEL, [(TM,
"""        pRgXY = np.sum(
            self.pZ_[np.newaxis, np.newaxis, :] *
            self.pRgZ_[np.newaxis, :, :] *
            self.pXgZ_[ev[:, 0], np.newaxis, :] *
            self.pYgZ_[ev[:, 1], np.newaxis, :], axis=2)
        pRgXY /= pRgXY.sum(axis=1, keepdims=True)

        if self.use_expectation:
            sc = np.dot(pRgXY, self.score_levels[:, np.newaxis])[:, 0]
        else:
            sc = self.score_levels[np.argmax(pRgXY, axis=1)]

        return sc
""",
"""        pXY = self.pZ_ * self.pXgZ_[ev[:, 0]] * self.pYgZ_[ev[:, 1]]
        pRgXY = np.dot(pXY, self.pRgZ_.T)
        pRgXY = pRgXY / np.sum(pRgXY, axis=1)[:, np.newaxis]

        if not self.use_expectation:
            return self.score_levels[pRgXY.argmax(axis=1)]

        return pRgXY.dot(self.score_levels)
""")])

N['predict_helper'] = (MODEL, [(BB,
"""        integer_id = np.issubdtype(self.eid[0].dtype, np.integer)
        eev = check_array(
            np.atleast_2d(eev), dtype=int if integer_id else None)
        ev = self.to_iid_event(eev)[:, self.event_index]

        return np.squeeze(self.raw_predict(ev))
""",
"""        ev = self._internal_events(eev)
        esc = self.raw_predict(ev)

        return esc[0] if esc.shape[0] == 1 else esc

    def _internal_events(self, eev):
        dtype = None
        if np.issubdtype(self.eid[0].dtype, np.integer):
            dtype = int
        eev = check_array(np.atleast_2d(eev), dtype=dtype)
        iev = self.to_iid_event(eev)
        return np.take(iev, self.event_index, axis=1)
""")])

N['fit_select'] = (MODEL, [(BB,
"""        self.event = self.event.take(self.event_index, axis=1)
        self.n_objects = self.n_objects.take(self.event_otypes)
        self.n_objects = self.n_objects.take(self.event_index)
""",
"""        otypes = np.asarray(self.event_otypes)[self.event_index]
        self.event = self.event[:, self.event_index]
        self.n_objects = np.array([self.n_objects[o] for o in otypes])
""")])

N['implicit_array'] = (MODEL, [(IB,
"""        ev = sparse.coo_matrix((scores, (users, items)), shape=n_objects)
        ev = ev.tocsr()
        # repeated events are consumed only once
        ev.data[:] = 1
""",
"""        ev = sparse.csr_matrix((scores, (users, items)), shape=n_objects)
        # repeated events are consumed only once
        ev.sum_duplicates()
        np.minimum(ev.data, 1, out=ev.data)
""")])

N['kfold_rewrite'] = (['C12', 'C13'], [(SP,
"""        iters = np.empty(group_indices.shape[0], dtype=object)

        # generate iterators
        cv = KFold(
            n_splits=self.n_splits, shuffle=self.shuffle,
            random_state=rng if self.shuffle else None)
        for i, g in enumerate(group_indices):
            group_member = indices[groups == g]
            iters[i] = cv.split(group_member)

        # generate training and test splits
        for fold in xrange(self.n_splits):
            test_fold[:] = False
            for i, g in enumerate(group_indices):
                group_train_i, group_test_i = next(iters[i])
                test_fold[indices[groups == g][group_test_i]] = True
            yield test_fold
""",
"""        # generate iterators
        cv = KFold(
            n_splits=self.n_splits, shuffle=self.shuffle,
            random_state=rng if self.shuffle else None)
        members = [indices[groups == g] for g in group_indices]
        iters = [cv.split(m) for m in members]

        # generate training and test splits
        for _ in range(self.n_splits):
            test_fold = np.zeros(n_samples, dtype=bool)
            for member, it in zip(members, iters):
                _, test_i = next(it)
                test_fold[member[test_i]] = True
            yield test_fold
""")])

N['shuffle_rewrite'] = (['C12', 'C13', 'C14'], [(SP,
"""        for fold in xrange(self.n_splits):
            test_fold[:] = False
            for i, g in enumerate(group_indices):
                train_i, test_i = train_test_split(
                    indices[groups == g],
                    test_size=self.test_size, train_size=self.train_size,
                    shuffle=self.shuffle, random_state=rng)
                test_fold[test_i] = True
            yield test_fold
""",
"""        members = [np.flatnonzero(groups == g) for g in group_indices]
        for _ in range(self.n_splits):
            tested = [
                train_test_split(
                    m, test_size=self.test_size, train_size=self.train_size,
                    shuffle=self.shuffle, random_state=rng)[1]
                for m in members]
            mask = np.zeros(n_samples, dtype=bool)
            mask[np.concatenate(tested)] = True
            yield mask
""")])

N['cv_helper'] = (EXP, [(XU,
"""    for train_i, test_i in cv.split(ev, groups=ev[:, 0]):
        # in an one-fold mode, non target folds are ignored
        if target_fold is not None and fold != target_fold:
            fold += 1
            continue

        # training
""",
"""    for fold, (train_i, test_i) in enumerate(cv.split(ev, groups=ev[:, 0])):
        # in an one-fold mode, non target folds are ignored
        if target_fold not in (None, fold):
            continue

        # training
"""), (XU,
"""                    data.event_feature[k][test_i])

        fold += 1
""",
"""                    data.event_feature[k][test_i])
"""), (XU, """    # cross validation
    fold = 0
""", """    # cross validation
""")])

N['cv_stop_early'] = (EXP, [(XU,
"""                    data.event_feature[k][test_i])

        fold += 1
""",
"""                    data.event_feature[k][test_i])

        if target_fold is not None:
            break
        fold += 1
""")])

N['timer_helper'] = (EXP, [(XU,
"""    # set starting time
    start_time = datetime.datetime.now()
    start_utime = os.times()[0]
    res_info['start_time'] = start_time.isoformat()
    logger.info("training_start_time = " + res_info['start_time'])

    # create and learning model
    rec.fit(data)

    # set end and elapsed time
    end_time = datetime.datetime.now()
    end_utime = os.times()[0]
    res_info['end_time'] = end_time.isoformat()
    res_info['elapsed_time'] = end_time - start_time
    res_info['elapsed_utime'] = end_utime - start_utime
    logger.info("training_end_time = " + res_info['end_time'])
    logger.info("training_elapsed_time = " + str(res_info['elapsed_time']))
    logger.info("training_elapsed_utime = " + str(res_info['elapsed_utime']))
""",
"""    # create and learning model
    _timed('training', lambda: rec.fit(data), res_info)
"""), (XU,
"""    # set starting time
    start_time = datetime.datetime.now()
    start_utime = os.times()[0]
    res_info['start_time'] = start_time.isoformat()
    logger.info("test_start_time = " + res_info['start_time'])

    # prediction
    esc = np.atleast_1d(rec.predict(ev))

    # set end and elapsed time
    end_time = datetime.datetime.now()
    end_utime = os.times()[0]
    res_info['end_time'] = end_time.isoformat()
    res_info['elapsed_time'] = end_time - start_time
    res_info['elapsed_utime'] = end_utime - start_utime
    logger.info("test_end_time = " + res_info['end_time'])
    logger.info("test_elapsed_time = " + str(res_info['elapsed_time']))
    logger.info("test_elapsed_utime = " + str(res_info['elapsed_utime']))
""",
"""    # prediction
    esc = np.atleast_1d(_timed('test', lambda: rec.predict(ev), res_info))
"""), (XU,
"""def training(rec, data):
""",
"""def _timed(name, func, info):
    begin = (datetime.datetime.now(), os.times().user)
    info['start_time'] = begin[0].isoformat()
    logger.info("%s_start_time = %s", name, info['start_time'])
    value = func()
    end = (datetime.datetime.now(), os.times().user)
    info['end_time'] = end[0].isoformat()
    info['elapsed_time'] = end[0] - begin[0]
    info['elapsed_utime'] = end[1] - begin[1]
    for key in ('end_time', 'elapsed_time', 'elapsed_utime'):
        logger.info("%s_%s = %s", name, key, info[key])
    return value


def training(rec, data):
""")])

N['from_datetime'] = (EXP, [(XU, "import datetime\n", "from datetime import datetime\n"),
  (XU, "datetime.datetime.now()", "datetime.now()"), (XU, "datetime.datetime.now()", "datetime.now()"),
  (XU, "datetime.datetime.now()", "datetime.now()"), (XU, "datetime.datetime.now()", "datetime.now()")])

N['json_dump'] = (EXP, [(XU,
"""    outfile.write(json.dumps(info))
    if outfile is not sys.stdout:
        outfile.close()
""",
"""    json.dump(info, outfile)
    if outfile is sys.stdout:
        outfile.flush()
    else:
        outfile.close()
"""), (FM,
"""    opt.outfile.write(json.dumps(cv_info))
    if opt.outfile is not sys.stdout:
        opt.outfile.close()
""",
"""    json.dump(cv_info, opt.outfile)
    opt.outfile.flush()
    if opt.outfile is not sys.stdout:
        opt.outfile.close()
"""), (ST,
"""    opt.outfile.write(json.dumps(info))
""",
"""    text = json.dumps(info)
    for start in range(0, len(text), 1000):
        opt.outfile.write(text[start:start + 1000])
""")])

N['merge_loop'] = (EXP, [(FM,
"""    infile = opt.infile[0]
    logger.info("Processing \\"" + infile.name + "\\"")
    cv_info = first_fold(infile)

    for i in range(1, len(opt.infile)):
        infile = opt.infile[i]
        logger.info("Processing \\"" + infile.name + "\\"")
        rest_fold(infile, cv_info)
""",
"""    cv_info = None
    for infile in opt.infile:
        logger.info('Processing "{}"'.format(infile.name))
        if cv_info is None:
            cv_info = first_fold(infile)
        else:
            rest_fold(infile, cv_info)
"""), (FM,
"""    cv_info = json.load(fp)
""",
"""    with fp:
        text = fp.read()
    cv_info = json.loads(text)
""")])

N['json_decodable'] = (EXP, [(KX,
"""    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, (dict, list)):
                json_decodable(v)
            elif isinstance(v, np.ndarray):
                x[k] = v.tolist()
                json_decodable(x[k])
            elif issparse(v):
                x[k] = v.toarray().tolist()
                json_decodable(x[k])
            elif isinstance(v, np.integer):
                x[k] = int(v)
            elif isinstance(v, np.floating):
                x[k] = float(v)
            elif isinstance(v, np.complexfloating):
                x[k] = complex(v)
            elif not isinstance(v, (bool, int, float, complex)):
                x[k] = str(v)
    elif isinstance(x, list):
        for k, v in enumerate(x):
""",
"""    if isinstance(x, (dict, list)):
        pairs = x.items() if isinstance(x, dict) else enumerate(x)
        for k, v in list(pairs):
""")])

N['cpuinfo_open'] = (EXP, [(KX,
"""            process_pipe = subprocess.Popen(
                ['/bin/cat', '/proc/cpuinfo'],
                stdout=subprocess.PIPE, stderr=DEVNULL)
            hard_info, _ = process_pipe.communicate()
            hard_info = hard_info.decode('utf-8').split('\\n')
        else:""",
"""            with open('/proc/cpuinfo', 'rb') as cpuinfo:
                hard_info = cpuinfo.read().decode('utf-8').split('\\n')
        else:""")])

N['cpuinfo_check_output'] = (EXP, [(KX,
"""            process_pipe = subprocess.Popen(
                ['/bin/cat', '/proc/cpuinfo'],
                stdout=subprocess.PIPE, stderr=DEVNULL)
            hard_info, _ = process_pipe.communicate()
            hard_info = hard_info.decode('utf-8').split('\\n')
        else:""",
"""            hard_info = subprocess.check_output(
                ['/bin/cat', '/proc/cpuinfo'], stderr=DEVNULL)
            hard_info = hard_info.decode('utf-8').split('\\n')
        else:""")])

N['cpuinfo_run'] = (EXP, [(KX,
"""            process_pipe = subprocess.Popen(
                ['/bin/cat', '/proc/cpuinfo'],
                stdout=subprocess.PIPE, stderr=DEVNULL)
            hard_info, _ = process_pipe.communicate()
            hard_info = hard_info.decode('utf-8').split('\\n')
        else:""",
"""            with subprocess.Popen(
                    ['/bin/cat', '/proc/cpuinfo'],
                    stdout=subprocess.PIPE, stderr=DEVNULL,
                    universal_newlines=True) as process_pipe:
                hard_info = process_pipe.stdout.read().split('\\n')
        else:""")])

N['stats_helper'] = (['C15', 'C17'], [(ST,
"""    if opt.infile is not sys.stdin:
        opt.infile.close()

    if opt.outfile is not sys.stdout:
        opt.outfile.close()
""",
"""    for fp, std in ((opt.infile, sys.stdin), (opt.outfile, sys.stdout)):
        if fp is not std:
            fp.close()
"""), (ST,
"""        folds = list(info['prediction']['true'])
        y_true = np.concatenate(
            [info['prediction']['true'][f] for f in folds])
        y_pred = np.concatenate(
            [info['prediction']['predicted'][f] for f in folds])
""",
"""        y_true, y_pred = [], []
        for f, true in info['prediction']['true'].items():
            y_true.extend(true)
            y_pred.extend(info['prediction']['predicted'][f])
"""),
 (ST, "    del info['prediction']\n" , "    info.pop('prediction')\n")])

N['loader_helper'] = (['C10', 'C11', 'C13', 'C15'], [(LD,
"""    x = np.atleast_1d(
        np.genfromtxt(fname=infile, delimiter='\\t', dtype=dtype))

    data = EventWithScoreData""",
"""    x = _read_table(infile, dtype)

    data = EventWithScoreData"""), (LD,
"""def load_event(infile""",
"""def _read_table(infile, dtype):
    table = np.genfromtxt(infile, dtype=dtype, delimiter='\\t')
    return table.reshape(1) if table.ndim == 0 else table


def load_event(infile""")])

N['loader_lines'] = (['C10', 'C11', 'C13', 'C15'], [(LD,
"""    x = np.atleast_1d(
        np.genfromtxt(fname=infile, delimiter='\\t', dtype=dtype))

    data = EventWithScoreData""",
"""    if hasattr(infile, 'read'):
        x = np.genfromtxt(infile.readlines(), delimiter='\\t', dtype=dtype)
    else:
        with open(infile, 'r') as fp:
            x = np.genfromtxt(fp, delimiter='\\t', dtype=dtype)
    x = np.atleast_1d(x)

    data = EventWithScoreData""")])

N['converter_with'] = (['C11'], [('data/flixster.py',
"""for line in infile.readlines():
    f = line.rstrip('\\r\\n').split('\\t')
    print(f[0], f[1], f[2], sep='\\t', file=outfile)

infile.close()
outfile.close()
""",
"""with infile, outfile:
    for line in infile:
        user, item, score = line.rstrip('\\r\\n').split('\\t')[:3]
        outfile.write('%s\\t%s\\t%s\\n' % (user, item, score))
"""), ('data/movielens_mini.py',
"""for line in infile.readlines():
    if line[0] == '#':
        continue
    f = line.rstrip('\\r\\n').split("\\t")
    if int(f[0]) <= 10 and int(f[1]) <= 10:
        print(line, end='', file=outfile)

infile.close()
outfile.close()
""",
"""def selected(line):
    if line.startswith('#'):
        return False
    user, item = line.split("\\t")[:2]
    return int(user) <= 10 and int(item) <= 10


lines = infile.readlines()
infile.close()
outfile.writelines(line for line in lines if selected(line))
outfile.close()
""")])

N['converter_atomic'] = (['C11'], [('data/flixster.py',
"""outfile = open(os.path.join(target, stem + '.event'), 'w')
""",
"""outfile = open(os.path.join(target, stem + '.event.tmp'), 'w')
"""), ('data/flixster.py',
"""infile.close()
outfile.close()
""",
"""infile.close()
outfile.close()
os.rename(os.path.join(target, stem + '.event.tmp'),
          os.path.join(target, stem + '.event'))
""")])


MR = 'kamrecsys/metrics/real.py'
MI = 'kamrecsys/metrics/item_finder.py'

N['pmf_joint'] = (MODEL, [(MF,
"""        res = minimize(
            fun=self.loss,
            x0=self._coef,
            args=(ev, sc, n_objects),
            method=optimizer_method,
            jac=self.grad_loss,
            **optimizer_kwargs)
""",
"""        def fun_and_grad(coef):
            return (self.loss(coef, ev, sc, n_objects),
                    self.grad_loss(coef, ev, sc, n_objects))

        res = minimize(fun_and_grad, self._coef.copy(), jac=True,
                       method=optimizer_method, **optimizer_kwargs)
""")])

N['pmf_kwargs'] = (MODEL, [(IM,
"""        optimizer_method = optimizer_kwargs.pop('method', 'CG')
""",
"""        optimizer_kwargs.setdefault('method', 'CG')
        optimizer_method = optimizer_kwargs['method']
"""), (IM,
"""        res = minimize(
            fun=self.loss,
            x0=self._coef,
            args=(ev, sc, n_objects),
            method=optimizer_method,
            jac=self.grad_loss,
            **optimizer_kwargs)
""",
"""        optimizer_kwargs.update(args=(ev, sc, n_objects), jac=self.grad_loss)
        res = minimize(self.loss, self._coef, **optimizer_kwargs)
        for name in ('method', 'args', 'jac'):
            del optimizer_kwargs[name]
""")])

N['pmf_report_anew'] = (MODEL, [(MF,
"""        self.fit_results_['initial_loss'] = self.loss(
            self._coef, ev, sc, n_objects)
""",
"""        initial_loss = self.loss(self._coef, ev, sc, n_objects)
"""), (MF,
"""        self.fit_results_['n_users'] = n_objects[0]
        self.fit_results_['n_items'] = n_objects[1]
        self.fit_results_['n_events'] = self.n_events
        self.fit_results_['n_parameters'] = self._coef.size
        self.fit_results_['success'] = res.success
""",
"""        self.fit_results_ = {
            'initial_loss': initial_loss, 'n_users': n_objects[0],
            'n_items': n_objects[1], 'n_events': ev.shape[0],
            'n_parameters': len(self._coef)}
        self.fit_results_['success'] = res.success
""")])

N['pmf_einsum'] = (MODEL, [(MF,
"""                np.sum(self.p_[ev[:, 0], :] * self.q_[ev[:, 1], :],
                       axis=1))
""",
"""                np.einsum('ij,ij->i', self.p_[ev[:, 0], :],
                          self.q_[ev[:, 1], :]))
"""), (IM,
"""        grad_bu[:] += self.C * bu
        grad_bi[:] += self.C * bi
        grad_p[:, :] += self.C * p
        grad_q[:, :] += self.C * q
""",
"""        reg = self.C * coef
        reg[0] = 0.0
        grad += reg
""")])

N['lpmf_check_first'] = (MODEL, [(IB,
"""        super(BaseExplicitItemFinder, self).fit(data, event_index)

        # check whether scores are binary
        if (
                (not np.array_equal(data.score_domain, [0, 1, 1])) or
                (not is_binary_score(data.score, allow_uniform=False)) or
                (data.n_score_levels != 2)):
            raise ValueError('Scores are not binary type')
""",
"""        # check whether scores are binary
        binary = (data.n_score_levels == 2 and
                  is_binary_score(data.score, allow_uniform=False) and
                  np.array_equal(data.score_domain, [0, 1, 1]))
        if not binary:
            raise ValueError('Scores are not binary type')

        super(BaseExplicitItemFinder, self).fit(data, event_index)
""")])

N['interlaced_generator'] = (['C12'], [(SP,
"""        # generate test fold
        test_fold = np.arange(n_samples, dtype=int) % self.n_splits
        cv = PredefinedSplit(test_fold)

        return(cv.split())
""",
"""        indices = np.arange(n_samples)
        for fold in xrange(self.n_splits):
            yield np.delete(indices, indices[fold::self.n_splits]), \\
                indices[fold::self.n_splits].copy()
""")])

N['set_feature_dict'] = (DATA + ['C11'], [(DB,
"""        iid = self.iid[otype]
        index = np.repeat(len(eid), len(iid))
        for i, j in enumerate(eid):
            if j in iid:
                index[iid[j]] = i
        self.feature[otype] = np.asarray(feature)[index].copy()
""",
"""        position = {j: i for i, j in enumerate(eid)}
        index = [position.get(j, len(eid)) for j in self.eid[otype]]
        self.feature[otype] = np.take(np.asarray(feature), index, axis=0)
""")])

N['histogram_bincount'] = (['C13', 'C15', 'C17'], [(MR,
"""    hist, bins = np.histogram(x, bins=bins)

    # candidates of possible scores
    if isinstance(score_domain, np.integer):
""",
"""    if isinstance(score_domain, np.integer):
        hist, bins = np.histogram(x, bins=bins)
    else:
        hist = np.bincount(np.digitize(x, bins) - 1, minlength=len(bins) - 1)

    # candidates of possible scores
    if isinstance(score_domain, np.integer):
"""), (MR,
"""    mean = np.nanmean(errs)
    stdev = np.nanstd(errs)

    return mean, stdev
""",
"""    mean = errs.mean()
    stdev = np.sqrt(np.mean((errs - mean) ** 2))

    return mean, stdev
""")])

N['stats_json'] = (['C15', 'C17'], [(ST,
"""    info = json.load(opt.infile)
""",
"""    text = opt.infile.read()
    info = json.loads(text)
"""), (ST,
"""        folds = list(info['prediction']['true'])
        y_true = np.concatenate(
            [info['prediction']['true'][f] for f in folds])
        y_pred = np.concatenate(
            [info['prediction']['predicted'][f] for f in folds])
""",
"""        y_true, y_pred = [], []
        for f, values in sorted(info['prediction']['true'].items(),
                                key=lambda item: int(item[0])):
            y_true.extend(values)
            y_pred.extend(info['prediction']['predicted'][f])
"""), (ST,
"""    if not opt.keepdata:
        del info['prediction']

    # output statistics
    opt.outfile.write(json.dumps(info))
""",
"""    if not opt.keepdata:
        info.pop('prediction')

    # output statistics
    json.dump(info, opt.outfile)
    opt.outfile.flush()
""")])

N['environment_later'] = (EXP, [(XU,
"""    info['environment']['script'] = {
        'name': os.path.basename(sys.argv[0]), 'version': __version__}
    info['environment']['system'] = get_system_info()
    info['environment']['version'] = get_version_info()
    info['environment']['version']['kamrecsys'] = kamrecsys_version

""", ""), (XU,
"""    # output information
    outfile = info['condition']['out_file']
""",
"""    versions = dict(get_version_info(), kamrecsys=kamrecsys_version)
    info['environment'].update(
        script={'name': os.path.basename(sys.argv[0]),
                'version': __version__},
        system=get_system_info(), version=versions)

    # output information
    outfile = info['condition']['out_file']
""")])

N['merge_read_first'] = (EXP, [(FM,
"""    infile = opt.infile[0]
    logger.info("Processing \\"" + infile.name + "\\"")
    cv_info = first_fold(infile)

    for i in range(1, len(opt.infile)):
        infile = opt.infile[i]
        logger.info("Processing \\"" + infile.name + "\\"")
        rest_fold(infile, cv_info)
""",
"""    cv_info = None
    for infile in opt.infile:
        logger.info("Processing \\"{0}\\"".format(infile.name))
        if cv_info is None:
            cv_info = first_fold(infile)
        else:
            rest_fold(infile, cv_info)
"""), (FM,
"""    opt.outfile.write(json.dumps(cv_info))
    if opt.outfile is not sys.stdout:
        opt.outfile.close()
""",
"""    text = json.dumps(cv_info)
    if opt.outfile is sys.stdout:
        print(text, end='')
    else:
        with opt.outfile as fp:
            fp.write(text)
""")])

N['holdout_locals'] = (EXP, [(XU,
"""    info['training']['n_events'] = train_data.n_events
    info['training']['n_users'] = (
        train_data.n_objects[train_data.event_otypes[0]])
    info['training']['n_items'] = (
        train_data.n_objects[train_data.event_otypes[1]])

    info['test']['n_events'] = test_data.n_events
    info['test']['n_users'] = (
        test_data.n_objects[test_data.event_otypes[0]])
    info['test']['n_items'] = (
        test_data.n_objects[test_data.event_otypes[1]])
""",
"""    for kind, data in (('test', test_data), ('training', train_data)):
        users, items = data.event_otypes
        info[kind].update(n_items=data.n_objects[items],
                          n_users=data.n_objects[users],
                          n_events=len(data.event))
"""), (XU,
"""    info['prediction']['event'] = test_data.to_eid_event(test_data.event)
""",
"""    info['prediction']['event'] = test_ev
""")])

N['converter_stream'] = (['C11'], [('data/movielens1m.py',
"""infile = open(os.path.join(pwd, 'users.dat'), 'r')
""",
"""infile = io.open(os.path.join(pwd, 'users.dat'), encoding='ascii')
"""), ('data/movielens1m.py',
"""for line in infile.readlines():
""",
"""for line in infile:
"""), ('data/sushi3.py',
"""uid = 0
for line in infile.readlines():
    rating = line.rstrip('\\r\\n').split(" ")
    for iid in xrange(len(rating)):
        if int(rating[iid]) >= 0:
            print(uid, iid, rating[iid], sep="\\t", file=outfile)
    uid += 1
""",
"""for uid, line in enumerate(infile):
    for iid, rating in enumerate(line.rstrip('\\r\\n').split(" ")):
        if int(rating) >= 0:
            outfile.write("{0}\\t{1}\\t{2}\\n".format(uid, iid, rating))
""")])

N['predict_loop'] = (MODEL, [(BB,
"""        return np.squeeze(self.raw_predict(ev))
""",
"""        sc = self.raw_predict(ev)
        if sc.shape == (1,):
            return sc[0]
        return sc
""")])


N['score_levels_cached'] = (['C01', 'C03', 'C05', 'C08', 'C09', 'C17'], [(
'kamrecsys/metrics/base.py',
"""def generate_score_bins(score_domain):
""",
"""_bins = {}


def generate_score_bins(score_domain):
    key = tuple(float(x) for x in score_domain)
    if key not in _bins:
        _bins[key] = _generate_score_bins(score_domain)
    return _bins[key].copy()


def _generate_score_bins(score_domain):
"""), (ES,
"""        if digitized_scores is None:
            digitized_scores = np.digitize(self.score, bins) - 1
        else:
            digitized_scores = np.digitize(score, bins) - 1
""",
"""        if digitized_scores is None:
            digitized_scores = self.score
        digitized_scores = np.searchsorted(
            bins, digitized_scores, side='right') - 1
""")])

N['errstate'] = (['C07', 'C08', 'C09', 'C17'], [(ST,
"""    np.seterr(all='ignore')

    # load data
    info = json.load(opt.infile)
""",
"""    old = np.seterr(all='ignore')

    # load data
    try:
        info = json.load(opt.infile)
    except ValueError:
        logging.getLogger('kamrecsys').error('not a result')
        np.seterr(**old)
        raise
"""), (ST, "import json\n", "import json\nimport logging\n"),
('kamrecsys/utils/kammath.py',
"""    x = np.clip(x, -34.538776394910684, 34.538776394910684)

    return expit(x)
""",
"""    bound = 34.538776394910684
    with np.errstate(over='ignore', under='ignore'):
        return expit(np.minimum(np.maximum(x, -bound), bound))
""")])

N['status_table'] = (['C08', 'C09', 'C13'], [('kamrecsys/utils/base.py',
"""    if status == 0:
        message = fit_status_message['success']
    elif status == 1:
        message = fit_status_message['maxfev']
    elif status == 2:
        message = fit_status_message['maxiter']
    elif status == 3:
        message = fit_status_message['pr_loss']
    else:
        message = 'Unknown status code.'

    return message
""",
"""    names = dict(enumerate(('success', 'maxfev', 'maxiter', 'pr_loss')))
    try:
        return fit_status_message[names[status]]
    except KeyError:
        return 'Unknown status code.'
"""), ('kamrecsys/utils/base.py',
"""    if allow_uniform:
        is_binary = (
            np.array_equal(elements, [0, 1]) or
            np.array_equal(elements, [0]) or
            np.array_equal(elements, [1]))
    else:
        is_binary = np.array_equal(elements, [0, 1])

    return is_binary
""",
"""    found = elements.tolist()

    return found == [0, 1] or (allow_uniform and found in ([0], [1]))
""")])

N['loaders_shared'] = (['C09', 'C10', 'C11'], [(
'kamrecsys/datasets/movielens.py',
"""    x = np.atleast_1d(
        np.genfromtxt(fname=infile, delimiter='\\t', dtype=dtype))
    data.set_feature(0, x['eid'], x['feature'])

    # load item's feature file
    infile = os.path.join(SAMPLE_PATH, 'movielens100k.item')
""",
"""    _attach(data, 0, infile, dtype)

    # load item's feature file
    infile = os.path.join(SAMPLE_PATH, 'movielens100k.item')
"""), ('kamrecsys/datasets/movielens.py',
"""def load_movielens100k(infile""",
"""def _attach(data, otype, infile, dtype):
    with open(infile, 'rb') as f:
        lines = [x for x in f.read().decode('utf-8').split('\\n')
                 if x.strip() and not x.startswith('#')]
    x = np.atleast_1d(
        np.genfromtxt(lines, delimiter='\\t', dtype=dtype, comments=None,
                      encoding='utf-8'))
    data.set_feature(otype, x['eid'], x['feature'])


def load_movielens100k(infile"""), (LD,
"""    s_events = n_otypes if event_otypes is None else len(event_otypes)
    if event_dtype is None:
        dtype = np.dtype([('event', int, (s_events,))])
    else:
        dtype = np.dtype([('event', int, (s_events,)),
                          ('event_feature', event_dtype)])
""",
"""    s_events = n_otypes if event_otypes is None else len(event_otypes)
    fields = [('event', int, (s_events,))]
    if event_dtype is not None:
        fields.append(('event_feature', event_dtype))
    dtype = np.dtype(fields)
""")])

N['init_info'] = (EXP, [('scripts/exp_recsys_sp.py',
"""    elif opt.method == 'plsam':
        from kamrecsys.score_predictor import MultinomialPLSA
        info['model']['method'] = 'multionomial pLSA - expectation'
        info['model']['recommender'] = MultinomialPLSA
        info['model']['options'] = {
            'alpha': opt.alpha, 'k': opt.k, 'tol': opt.tol,
            'use_expectation': True}
        if opt.maxiter is not None:
            info['model']['options']['maxiter'] = opt.maxiter
    elif opt.method == 'plsamm':
        from kamrecsys.score_predictor import MultinomialPLSA
        info['model']['recommender'] = MultinomialPLSA
        info['model']['method'] = 'multionomial pLSA - mode'
        info['model']['options'] = {
            'alpha': opt.alpha, 'k': opt.k, 'tol': opt.tol,
            'use_expectation': False}
        if opt.maxiter is not None:
            info['model']['options']['maxiter'] = opt.maxiter
""",
"""    elif opt.method in ('plsam', 'plsamm'):
        from kamrecsys.score_predictor import MultinomialPLSA
        expectation = opt.method == 'plsam'
        info['model'].update(
            recommender=MultinomialPLSA,
            method='multionomial pLSA - ' + (
                'expectation' if expectation else 'mode'),
            options=dict(alpha=opt.alpha, k=opt.k, tol=opt.tol,
                         use_expectation=expectation))
        if opt.maxiter is not None:
            info['model']['options']['maxiter'] = opt.maxiter
"""), ('scripts/exp_recsys_sp.py',
"""    # score_domain is explicitly specified?
    if np.all(np.array(score_domain) == 0):
        score_domain = None

    # load data
    data = load_event_with_score(
        fp,
        event_dtype=event_dtype_timestamp if has_timestamp else None,
        score_domain=score_domain)
""",
"""    # score_domain is explicitly specified?
    if not np.any(score_domain):
        score_domain = None

    # load data
    options = {'score_domain': score_domain}
    if has_timestamp:
        options['event_dtype'] = event_dtype_timestamp
    data = load_event_with_score(fp, **options)
""")])

N['validate_sizes'] = (['C12', 'C13'], [(SP,
"""    for name, size in (('test_size', test_size), ('train_size', train_size)):
        kind = np.asarray(size).dtype.kind
        if size is not None and (
                kind not in 'fiu' or (kind == 'f' and size >= 1.0)):
            raise ValueError("Invalid value for {0:s}: {1!r}".format(
                name, size))

    if test_size is None and train_size is None:
        raise ValueError("test_size and train_size can not both be None")
""",
"""    if test_size is None and train_size is None:
        raise ValueError("test_size and train_size can not both be None")

    def check_size(name, size):
        if size is None:
            return
        kind = np.asarray(size).dtype.kind
        if kind not in ('f', 'i', 'u') or (kind == 'f' and size >= 1.0):
            raise ValueError("Invalid value for {0:s}: {1!r}".format(
                name, size))

    check_size('test_size', test_size)
    check_size('train_size', train_size)
""")])

N['eid_rows'] = (DATA + ['C07', 'C09', 'C13'], [(EV,
"""            new_data = np.empty_like(data, dtype=self.eid[0].dtype)
            for e in xrange(self.s_event):
                new_data[:, e] = self.eid[self.event_otypes[e]][data[:, e]]
""",
"""            columns = [self.eid[otype][data[:, e]]
                       for e, otype in enumerate(self.event_otypes)]
            new_data = np.stack(columns, axis=1).astype(self.eid[0].dtype)
"""), (DB,
"""        if iid < 0:
            raise ValueError("Illegal internal id")
        try:
            return self.eid[otype][iid]
        except IndexError:
            raise ValueError("Illegal internal id")
""",
"""        eid = self.eid[otype]
        if not 0 <= iid < len(eid):
            raise ValueError("Illegal internal id")
        return eid[iid]
"""), (DB,
"""        try:
            return self.iid[otype][eid]
        except KeyError:
            raise ValueError("Illegal external id")
""",
"""        table = self.iid[otype]
        if eid not in table:
            raise ValueError("Illegal external id")
        return table[eid]
""")])

N['lazy_imports'] = (['C04', 'C09', 'C13', 'C17'], [(MF,
"""from scipy.optimize import minimize
""",
""""""), (MF,
"""        res = minimize(
""",
"""        from scipy.optimize import minimize
        log = logging.getLogger('kamrecsys.training')
        log.debug('minimize')
        res = minimize(
""")])


def run(name):
    checks, edits = N[name]
    d = tempfile.mkdtemp(prefix='neutral')
    dst = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', dst, symlinks=True,
                        ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            p = os.path.join(dst, f)
            s = open(p, encoding='utf-8').read()
            if old not in s:
                print(name, 'TEXT NOT FOUND in', f, repr(old[:60]), flush=True)
                return
            open(p, 'w', encoding='utf-8').write(s.replace(old, new, 1))
        for c in dict.fromkeys(checks):
            r = subprocess.run(
                ['/opt/venv/bin/python', '/verif/dst/main.py', c, '--no-min',
                 '--runs', os.environ.get('RUNS', '500')],
                env=dict(os.environ, DST_REPO=dst), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(name, c, 'rc', r.returncode)
                print('\n'.join(r.stdout.splitlines()[-12:]), flush=True)
        print(name, 'done', flush=True)
    finally:
        shutil.rmtree(d)


for n in sys.argv[1:] or list(N):
    run(n)
