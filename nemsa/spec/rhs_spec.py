"""Reference: right-hand sides from AEMO's reverse Polish notation."""
import pandas as pd


def several(x):
    if isinstance(x, list):
        return x
    return [x]


class RHSCalc:
    def __init__(self, manager):
        inputs = manager.xml['NEMSPDCaseFile']['NemSpdInputs']
        self.scada = {}
        for s in inputs['ConstraintScadaDataCollection']['ConstraintScadaData']:
            kind = s['@SpdType']
            self.scada[kind] = {}
            found = list(several(s['ScadaValuesCollection']['ScadaValues']))
            if 'BadScadaValuesCollection' in s:
                found = found + several(s['BadScadaValuesCollection']['ScadaValues'])
            for v in found:
                if v['@SpdID'] in self.scada[kind]:
                    self.scada[kind][v['@SpdID']].append(v['@Value'])
                else:
                    self.scada[kind][v['@SpdID']] = [v['@Value']]
        self.generic = self.equations(inputs['GenericEquationCollection']['GenericEquation'], '@EquationID')
        self.rhs = self.equations(inputs['GenericConstraintCollection']['GenericConstraint'], '@ConstraintID')
        period = inputs['PeriodCollection']['Period']
        self.entered = {}
        for e in period['EnteredValuePeriodCollection']['EnteredValuePeriod']:
            self.entered[e['@SpdID']] = e['@Value']
        self.source, self.sink = {}, {}
        for i in period['InterconnectorPeriodCollection']['InterconnectorPeriod']:
            if i['@MNSP'] == '1':
                for o in i['MNSPOfferCollection']['MNSPOffer']:
                    if o['@RegionID'] == i['@FromRegion']:
                        self.source[i['@InterconnectorID']] = o['@MaxAvail']
                    else:
                        self.sink[i['@InterconnectorID']] = o['@MaxAvail']
        intervention = isinstance(manager.xml['NEMSPDCaseFile']['NemSpdOutputs']['PeriodSolution'], list)
        mw = 'WhatIfInitialMW' if intervention else 'InitialMW'
        self.output = {}
        for t in inputs['TraderCollection']['Trader']:
            for c in t['TraderInitialConditionCollection']['TraderInitialCondition']:
                if c['@InitialConditionID'] == mw:
                    self.output[t['@TraderID']] = c['@Value']
        self.solved = {}
        for c in manager.xml['NEMSPDCaseFile']['NemSpdOutputs']['ConstraintSolution']:
            if c['@Intervention'] == '0':
                self.solved[c['@ConstraintID']] = c['@RHS']

    def equations(self, entries, key):
        out = {}
        for e in entries:
            if 'RHSTermCollection' in e:
                out[e[key]] = several(e['RHSTermCollection']['RHSTerm'])
        return out

    def get_nemde_rhs(self, constraint_id):
        return float(self.solved[constraint_id])

    def update_spd_id_value(self, spd_id, type, value):
        if type in ['C', 'R', 'X']:
            raise ValueError()
        if type in ['A', 'S', 'I', 'W']:
            if len(self.scada[type][spd_id]) > 1:
                raise ValueError()
            self.scada[type][spd_id] = [value]
            return
        tables = {'T': self.output, 'E': self.entered, 'M': self.source, 'N': self.sink}
        if type not in tables:
            raise ValueError()
        if spd_id not in tables[type]:
            raise ValueError()
        tables[type][spd_id] = value

    def get_rhs_constraint_equations_that_depend_value(self, spd_id, type):
        out = []
        for name, terms in self.rhs.items():
            if self.uses(terms, spd_id, type, 0):
                out.append(name)
        return out

    def uses(self, terms, spd_id, type, depth):
        found = False
        for t in terms:
            if t['@SpdID'] == spd_id and t['@SpdType'] == type:
                found = True
            if t['@SpdType'] == 'X' and t['@SpdID'] in self.generic:
                if self.uses(self.generic[t['@SpdID']], spd_id, type, depth + 1):
                    found = True
        return found

    def compute_constraint_rhs(self, constraint_id):
        if isinstance(constraint_id, str):
            return self.evaluate(self.rhs[constraint_id])
        return pd.DataFrame({'set': constraint_id, 'rhs': [self.evaluate(self.rhs[c]) for c in constraint_id]})

    def value(self, t):
        """the value a term refers to, None when there is none"""
        kind, name = t['@SpdType'], t['@SpdID']
        if kind in ['A', 'S', 'R', 'I', 'W']:
            total = 0.0
            for v in self.scada[kind][name]:
                total = total + float(v)
            return total
        if kind == 'T' and name in self.output:
            return float(self.output[name])
        if kind == 'E' and name in self.entered:
            return float(self.entered[name])
        if kind == 'M' and name in self.source:
            return float(self.source[name])
        if kind == 'N' and name in self.sink:
            return float(self.sink[name])
        if kind == 'X' and name in self.generic:
            return self.evaluate(self.generic[name])
        return None

    def evaluate(self, terms):
        stack = [0.0]           # top of the stack last
        flag = False
        groups = {}
        n = len(terms)
        k = 0
        while k < n:
            t = terms[k]
            v = self.value(t)
            if '@GroupTerm' in t:
                # a run of terms of one group: its value goes to the group term after it, or straight to the stack
                members = []
                g = t['@GroupTerm']
                while k < n and '@GroupTerm' in terms[k] and terms[k]['@GroupTerm'] == g:
                    members.append(self.plain(terms[k]))
                    k = k + 1
                v = self.evaluate(members)
                if k < n and terms[k]['@SpdType'] == 'G':
                    t = terms[k]
                    k = k + 1
                else:
                    stack[-1] = stack[-1] + v
                    continue
            elif t['@SpdType'] == 'G':
                # a group term before its group
                k = k + 1
                members = []
                g = terms[k]['@GroupTerm']
                while k < n and '@GroupTerm' in terms[k] and terms[k]['@GroupTerm'] == g:
                    members.append(self.plain(terms[k]))
                    k = k + 1
                v = self.evaluate(members)
            else:
                k = k + 1
            flag = self.apply(stack, t, v, flag)
        return stack[-1]

    def plain(self, t):
        return {a: b for a, b in t.items() if a != '@GroupTerm'}

    def need(self, stack, n):
        if len(stack) < n:
            raise ValueError()

    def apply(self, stack, t, v, flag):
        kind = t['@SpdType']
        m = float(t['@Multiplier'])
        on_stack = kind == 'U'
        if kind == 'B':
            raise ValueError()
        if '@Operation' not in t:
            if on_stack:
                stack[-1] = stack[-1] * m
            elif v is None:
                stack[-1] = stack[-1] + m
            else:
                stack[-1] = stack[-1] + m * v
            return flag
        op = t['@Operation']
        if v is None and '@Default' in t:
            v = float(t['@Default'])
        if op in ['ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN']:
            if on_stack and op == 'ADD' and len(stack) < 2:
                stack[-1] = stack[-1] * m               # nothing to add
            elif on_stack:
                self.need(stack, 2)
                top = stack.pop()
                stack[-1] = self.two(op, stack[-1], top) * m
            elif kind == 'C':
                stack[-1] = self.two(op, stack[-1], m)
            else:
                stack[-1] = self.two(op, stack[-1], v) * m
        elif op == 'STEP':
            if on_stack:
                stack[-1] = m if stack[-1] > 0.0 else 0.0
            else:
                stack[-1] = stack[-1] + (m if v > 0.0 else 0.0)
        elif op in ['POW2', 'POW3', 'SQRT', 'ABS', 'NEG']:
            if on_stack:
                stack[-1] = self.one(op, stack[-1]) * m
            elif kind == 'C':
                stack[-1] = stack[-1] + self.one(op, m)
            else:
                stack[-1] = stack[-1] + self.one(op, v) * m
        elif op == 'PUSH':
            stack.append(m if kind == 'C' else m * v)
        elif op == 'DUP' and on_stack:
            stack.append(stack[-1] * m)
        elif op == 'EXCH' and on_stack:
            self.need(stack, 2)
            a = stack.pop()
            b = stack.pop()
            stack.append(a)
            stack.append(b * m)
        elif op == 'RSD' and on_stack:
            self.need(stack, 2)
            b = stack.pop(0)
            stack.append(b * m)
        elif op == 'RSU' and on_stack:
            self.need(stack, 2)
            a = stack.pop()
            stack.insert(0, a)
            stack[-1] = stack[-1] * m
        elif op == 'POP':
            if on_stack:
                return stack.pop() <= 0.0
            return v <= 0.0
        elif op == 'EXLEZ' and on_stack:
            if len(stack) >= 2:
                a = stack[-1]
                b = stack[-2]
                stack[-2] = a if flag else b
                stack[-1] = b * m if flag else a
            return False
        return flag

    def two(self, op, x, y):
        if op == 'ADD':
            return x + y
        if op == 'SUB':
            return x - y
        if op == 'MUL':
            return x * y
        if op == 'DIV':
            return x / y
        if op == 'MAX':
            return max(x, y)
        return min(x, y)

    def one(self, op, x):
        if op == 'POW2':
            return x * x
        if op == 'POW3':
            return x * x * x
        if op == 'SQRT':
            return x ** 0.5
        if op == 'ABS':
            return abs(x)
        return 0.0 - x
