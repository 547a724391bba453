"""Random shapes of NEMDE files: which items are there, one or several, with which attributes."""
import random

from .docs import Opt, Sym

TRADE_E = ['ENOF', 'LDOF', 'DROF', 'BDOF']
TRADE_F = ['R5RE', 'L5RE', 'R1SE', 'L1SE', 'R6SE', 'L6SE', 'R60S', 'L60S', 'R5MI', 'L5MI']
TYPES = ['GENERATOR', 'LOAD', 'NORMALLY_ON_LOAD', 'WDR', 'BIDIRECTIONAL']
PRICES = ['@EnergyPrice', '@R5Price', '@L5Price', '@R60Price', '@L60Price', '@R6Price', '@L6Price', '@R1Price', '@L1Price']


def num(rng):
    return rng.choice(['%d' % rng.randint(-9, 40), '%.2f' % (rng.randint(-900, 9000) / 100), '0', '%d.5' % rng.randint(0, 60), '100.0'])


def whole(rng):
    return str(rng.randint(0, 12))


class Shape:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    def s(self, draw=num):
        self.n += 1
        return Sym('x%d' % self.n, draw)

    def one(self, values):
        values = list(values)
        return self.s(lambda rng: rng.choice(values))

    def opt(self, v, p=0.6):
        self.n += 1
        return Opt('p%d' % self.n, v, p)

    def few(self, make, lo=1, hi=3):
        return [make(i) for i in range(self.r.randint(lo, hi))]

    def maybe_list(self, make):
        """one item, or a list of several"""
        k = self.r.choice([1, 1, 2, 3])
        return make(0) if k == 1 else [make(i) for i in range(k)]

    # ------------------------------------------------------------ parts
    def trade_price(self, i):
        d = {'@TradeType': self.one(TRADE_E + TRADE_F)}
        d['@Direction'] = self.opt(self.one(['GEN', 'LOAD']))
        for b in range(1, 11):
            d['@PriceBand%d' % b] = self.s() if b != 4 else self.opt(self.s(), 0.8)
        return d

    def trader(self, i):
        r = self.r
        names = ['InitialMW', 'SCADARampUpRate', 'SCADARampDnRate', 'AGCStatus', 'WhatIfInitialMW', 'HMW', 'LMW']
        names = r.sample(names, r.randint(2, 5))
        d = {'@TraderID': 'U%d' % i, '@TraderType': self.one(TYPES),
             'TraderInitialConditionCollection': {'TraderInitialCondition': [
                 {'@InitialConditionID': n, '@Value': self.s()} for n in names]},
             'TradePriceStructureCollection': {'TradePriceStructure': {'TradeTypePriceStructureCollection': {
                 'TradeTypePriceStructure': self.maybe_list(self.trade_price)}}}}
        if r.random() < 0.6:
            for n in ['@MinLoadingMW', '@CurrentMode', '@CurrentModeTime', '@T1', '@T2', '@T3', '@T4']:
                d[n] = self.s(whole)
            d['@WhatIfCurrentMode'] = self.opt(self.s(whole), 0.4)
            d['@WhatIfCurrentModeTime'] = self.opt(self.s(whole), 0.4)
        return d

    def trade(self, i):
        d = {}
        if self.r.random() < 0.5:
            d['@TradeType'] = self.one(TRADE_E)
            d['@RampUpRate'] = self.s()
            d['@RampDnRate'] = self.s()
        else:
            d['@TradeType'] = self.one(TRADE_F)
            for n in ['@EnablementMin', '@EnablementMax', '@LowBreakpoint', '@HighBreakpoint']:
                d[n] = self.s()
        d['@MaxAvail'] = self.s()
        for b in range(1, 11):
            d['@BandAvail%d' % b] = self.s()
        d['@Direction'] = self.opt(self.one(['GEN', 'LOAD']), 0.4)
        return d

    def trader_period(self, i):
        return {'@TraderID': 'U%d' % i, '@UIGF': self.opt(self.s(), 0.4), 'TradeCollection': {'Trade': self.maybe_list(self.trade)}}

    def factor(self, key, ids, trade=True):
        def make(i):
            d = {key: self.one(ids), '@Factor': self.s()}
            if trade:
                d['@TradeType'] = self.one(TRADE_E + TRADE_F)
            return d
        return make

    def constraint(self, i):
        d = {'@ConstraintID': 'C%d' % i, '@Type': self.one(['LE', 'GE', 'EQ']), '@ViolationPrice': self.s(), 'LHSFactorCollection': None}
        if self.r.random() < 0.85:
            f = d['LHSFactorCollection'] = {}
            for place, make in [('TraderFactor', self.factor('@TraderID', ['U1', 'U2', 'U3'])),
                                ('RegionFactor', self.factor('@RegionID', ['NSW1', 'VIC1', 'TAS1'])),
                                ('InterconnectorFactor', self.factor('@InterconnectorID', ['I1', 'I2'], False))]:
                x = self.maybe_list(make)
                if self.r.random() < 0.7:
                    f[place] = x if self.r.random() < 0.5 else self.opt(x, 0.7)
        return d

    def solution(self, i):
        return {'@ConstraintID': 'C%d' % i, '@Intervention': self.one(['0', '1']), '@RHS': self.s()}

    def interconnector(self, i):
        if self.r.random() < 0.5:
            return {'@InterconnectorID': 'I%d' % i, '@MNSP': '0', '@FromRegion': 'NSW1', '@ToRegion': 'VIC1'}
        a, b = self.r.sample(['NSW1', 'VIC1', 'TAS1'], 2)
        o = [{'@RegionID': a, '@MaxAvail': self.s()}, {'@RegionID': b, '@MaxAvail': self.s()}]
        self.r.shuffle(o)
        return {'@InterconnectorID': 'I%d' % i, '@MNSP': '1', '@FromRegion': a, '@ToRegion': b, 'MNSPOfferCollection': {'MNSPOffer': o}}

    def region(self, i):
        d = {'@RegionID': ['NSW1', 'VIC1', 'TAS1'][i]}
        for p in PRICES:
            d[p] = self.opt(self.s(), 0.8)
        return d

    def period(self, names, flag=None, partial=True):
        d = {n: self.opt(self.s()) if partial else self.s() for n in names}
        if flag is not None:
            d['@Intervention'] = flag
        return d

    def document(self):
        from .spec import xml_names
        r = self.r
        v = xml_names.VIOLATIONS
        if r.random() < 0.5:
            ps, cs = self.period(v), self.period(v, partial=False)
        else:
            f = ['0', '1'] if r.random() < 0.5 else ['1', '0']
            g = ['0', '1'] if r.random() < 0.5 else ['1', '0']
            ps = [self.period(v, x) for x in f]
            cs = [self.period(v, x, False) for x in g]
        return {'NEMSPDCaseFile': {
            'NemSpdInputs': {
                'Case': {n: self.s() for n in xml_names.PRICES},
                'TraderCollection': {'Trader': self.few(self.trader)},
                'PeriodCollection': {'Period': {
                    'TraderPeriodCollection': {'TraderPeriod': self.few(self.trader_period)},
                    'InterconnectorPeriodCollection': {'InterconnectorPeriod': self.few(self.interconnector)}}},
                'GenericConstraintCollection': {'GenericConstraint': self.few(self.constraint)}},
            'NemSpdOutputs': {
                'PeriodSolution': ps, 'CaseSolution': cs, 'ConstraintSolution': self.few(self.solution),
                'RegionSolution': self.few(self.region)}}}


def plus(rng):
    """a number that is not zero"""
    return rng.choice(['%d' % rng.randint(1, 40), '-%d' % rng.randint(1, 9), '%d.25' % rng.randint(1, 60), '-%d.5' % rng.randint(1, 30)])


def above(rng):
    return rng.choice(['%d' % rng.randint(1, 40), '%d.25' % rng.randint(1, 60)])


SCADA = ['A', 'S', 'I', 'W', 'R']
TWO = ['ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN']
ONE = ['POW2', 'POW3', 'SQRT', 'ABS', 'NEG']


class Equations(Shape):
    """documents with right-hand side equations"""
    def __init__(self, seed, groups=True, errors=False):
        super().__init__(seed)
        self.groups, self.errors = groups, errors
        r = self.r
        self.scada = {t: ['%s%d' % (t, i) for i in range(r.randint(1, 2))] for t in SCADA}
        self.units = ['U0', 'U1']
        self.entered = ['E0', 'E1']
        self.inters = ['I0']

    def mult(self):
        return self.r.choice(['1', '-1', '0.5', '2', '1.25', '-0.498'])

    def source(self, term, generic):
        """what a term refers to; returns whether it has a value"""
        r = self.r
        kinds = SCADA + ['T', 'T', 'E', 'M', 'N'] + (['X', 'X'] if generic else [])
        k = r.choice(kinds)
        term['@SpdType'] = k
        if k in SCADA:
            term['@SpdID'] = r.choice(self.scada[k])
        elif k == 'T':
            term['@SpdID'] = r.choice(self.units)
        elif k == 'E':
            term['@SpdID'] = r.choice(self.entered)
        elif k == 'X':
            term['@SpdID'] = r.choice(generic)
        else:
            term['@SpdID'] = 'I0'

    def equation(self, generic, n=None, inner=False):
        r = self.r
        out = []
        depth = 1
        n = n or r.randint(1, 5)
        popped = False
        while len(out) < n:
            t = {'@TermID': str(len(out) + 1), '@SpdID': 'K', '@SpdType': 'U', '@Multiplier': self.mult()}
            x = r.random()
            if x < 0.22:
                if r.random() < 0.3:
                    t['@SpdType'] = 'C'
                else:
                    self.source(t, generic)
            elif x < 0.28:
                pass                                            # scale the top of the stack
            elif x < 0.5:
                t['@Operation'] = r.choice(TWO)
                if depth >= 2 and r.random() < 0.5 or self.errors and r.random() < 0.2:
                    depth = max(1, depth - 1)
                elif r.random() < 0.25:
                    t['@SpdType'] = 'C'
                elif r.random() < 0.3:
                    t['@SpdType'] = r.choice(['T', 'E', 'M', 'N'])
                    t['@SpdID'] = 'NOWHERE'
                    t['@Default'] = self.s(plus)
                else:
                    self.source(t, generic)
                    if r.random() < 0.4:
                        t['@Default'] = self.s(plus)
            elif x < 0.62:
                t['@Operation'] = r.choice(ONE)
                if r.random() < 0.4:
                    if r.random() < 0.3:
                        t['@SpdType'] = 'C'
                        t['@Multiplier'] = t['@Multiplier'].lstrip('-')
                    else:
                        self.source(t, generic)
            elif x < 0.68:
                t['@Operation'] = 'STEP'
                if r.random() < 0.5:
                    self.source(t, generic)
            elif x < 0.82:
                t['@Operation'] = 'PUSH'
                if r.random() < 0.3:
                    t['@SpdType'] = 'C'
                elif r.random() < 0.3:
                    t['@SpdType'], t['@SpdID'], t['@Default'] = 'T', 'NOWHERE', self.s(plus)
                else:
                    self.source(t, generic)
                depth += 1
            elif x < 0.92:
                t['@Operation'] = r.choice(['DUP', 'EXCH', 'RSD', 'RSU'])
                if t['@Operation'] == 'DUP':
                    depth += 1
                elif depth < 2 and not (self.errors and r.random() < 0.3):
                    continue
            else:
                if popped:
                    t['@Operation'] = 'EXLEZ'
                else:
                    t['@Operation'] = 'POP'
                    if depth >= 2 and r.random() < 0.7:
                        depth -= 1
                    else:
                        self.source(t, generic)
                popped = not popped
            if t['@SpdType'] == 'C':
                t['@Default'] = self.s(plus)
            out.append(t)
            if self.groups and not inner and r.random() < 0.3:
                g = str(90 + len(out))
                members = self.equation(generic, r.randint(1, 3), True)
                for m in members:
                    m['@GroupTerm'] = g
                head = {'@TermID': g, '@SpdID': 'H', '@SpdType': 'G', '@Multiplier': self.mult()}
                if r.random() < 0.4:
                    head['@Operation'] = r.choice(['ADD', 'PUSH', 'MAX', 'SUB', 'MUL'])
                    depth += head['@Operation'] == 'PUSH'
                how = r.random()
                out += members + [head] if how < 0.4 else [head] + members if how < 0.75 else members
        if self.errors and r.random() < 0.2:
            out.append({'@TermID': '99', '@SpdID': 'B', '@SpdType': 'B', '@Multiplier': '1'})
        return out

    def terms(self, generic):
        e = self.equation(generic)
        return {'RHSTerm': e[0] if len(e) == 1 else e}

    def document(self):
        r = self.r
        scada = []
        for k in SCADA:
            vals = []
            for i in self.scada[k]:
                for _ in range(r.choice([1, 1, 2])):
                    vals.append({'@SpdID': i, '@Value': self.s(plus), '@EMS_ID': 'M', '@EMS_Key': 'K'})
            d = {'@SpdType': k}
            cut = r.randint(1, len(vals)) if r.random() < 0.3 else len(vals)
            good, bad = vals[:cut], vals[cut:]
            d['ScadaValuesCollection'] = {'ScadaValues': good[0] if len(good) == 1 else good}
            if bad:
                d['BadScadaValuesCollection'] = {'ScadaValues': bad[0] if len(bad) == 1 else bad}
            scada.append(d)
        generic = []
        names = []
        for i in range(r.randint(1, 3)):
            d = {'@EquationID': 'X%d' % i}
            if i == 0 or r.random() < 0.85:
                d['RHSTermCollection'] = self.terms(list(names))
                names.append('X%d' % i)
            generic.append(d)
        r.shuffle(generic)
        cons = []
        for i in range(r.randint(1, 3)):
            d = self.constraint(i)
            if i == 0 or r.random() < 0.85:
                d['RHSTermCollection'] = self.terms(names)
            cons.append(d)
        a, b = r.sample(['NSW1', 'VIC1'], 2)
        offers = [{'@RegionID': a, '@MaxAvail': self.s(plus)}, {'@RegionID': b, '@MaxAvail': self.s(plus)}]
        r.shuffle(offers)
        inters = [{'@InterconnectorID': 'I0', '@MNSP': '1', '@FromRegion': a, '@ToRegion': b, 'MNSPOfferCollection': {'MNSPOffer': offers}}]
        if r.random() < 0.5:
            inters.append({'@InterconnectorID': 'I1', '@MNSP': '0', '@FromRegion': a, '@ToRegion': b})
        mw = [{'@InitialConditionID': 'AGCStatus', '@Value': self.s(plus)}, {'@InitialConditionID': 'InitialMW', '@Value': None},
              {'@InitialConditionID': 'WhatIfInitialMW', '@Value': None}]
        traders = []
        for u in self.units:
            c = [dict(x, **{'@Value': self.s(plus)}) for x in mw]
            r.shuffle(c)
            traders.append({'@TraderID': u, '@TraderType': 'GENERATOR', 'TraderInitialConditionCollection': {'TraderInitialCondition': c}})
        sol = [{'@ConstraintID': d['@ConstraintID'], '@Intervention': '0', '@RHS': self.s(plus)} for d in cons]
        if r.random() < 0.5:
            ps = {'@Intervention': '0'}
        else:
            ps = [{'@Intervention': '0'}, {'@Intervention': '1'}]
            sol += [{'@ConstraintID': d['@ConstraintID'], '@Intervention': '1', '@RHS': self.s(plus)} for d in cons]
            r.shuffle(sol)
        self.names = [d['@ConstraintID'] for d in cons if 'RHSTermCollection' in d]
        return {'NEMSPDCaseFile': {
            'NemSpdInputs': {
                'ConstraintScadaDataCollection': {'ConstraintScadaData': scada},
                'GenericEquationCollection': {'GenericEquation': generic},
                'GenericConstraintCollection': {'GenericConstraint': cons},
                'TraderCollection': {'Trader': traders},
                'PeriodCollection': {'Period': {
                    'EnteredValuePeriodCollection': {'EnteredValuePeriod': [{'@SpdID': e, '@Value': self.s(plus)} for e in self.entered]},
                    'InterconnectorPeriodCollection': {'InterconnectorPeriod': inters}}}},
            'NemSpdOutputs': {'PeriodSolution': ps, 'ConstraintSolution': sol}}}
