"""Client programs of nempy used as entry points of the analysis, and the obligations of each market property."""
import textwrap

NEW = "m = markets.SpotMarket(['R1', 'R2'], unit_info)\n"
NEW30 = "m = markets.SpotMarket(['R1', 'R2'], unit_info, dispatch_interval=30)\n"
VOL = 'm.set_unit_volume_bids(volume_bids)\n'
PRI = 'm.set_unit_price_bids(price_bids)\n'
BASE = NEW + VOL + PRI
BT = ['unit_info', 'volume_bids', 'price_bids']
GO = 'm.dispatch()\n'

# one line per market feature: text, tables.  {c} is the violation cost argument.
FEATURES = {
    'cap': ('m.set_unit_bid_capacity_constraints(unit_limits{c})\n', ['unit_limits']),
    'uigf': ('m.set_unconstrained_intermittent_generation_forecast_constraint(uigf{c})\n', ['uigf']),
    'ramp': ('m.set_unit_ramp_rate_constraints(ramp{c})\n', ['ramp']),
    'ramp_scada': ('m.set_unit_ramp_rate_constraints(ramp, scada{c})\n', ['ramp', 'scada']),
    'ramp_first': ("m.set_unit_ramp_rate_constraints(ramp, scada, fsp, 'fast_start_first_run'{c})\n", ['ramp', 'scada', 'fsp']),
    'ramp_second': ("m.set_unit_ramp_rate_constraints(ramp, scada, fsp, 'fast_start_second_run'{c})\n", ['ramp', 'scada', 'fsp']),
    'ramp_second_bid': ("m.set_unit_ramp_rate_constraints(ramp, None, fsp, 'fast_start_second_run'{c})\n", ['ramp', 'fsp']),
    'fs': ('m.set_fast_start_constraints(fsp{c})\n', ['fsp']),
    'demand': ('m.set_demand_constraints(demand{c})\n', ['demand']),
    'fcas': ('m.set_fcas_requirements_constraints(fcas{c})\n', ['fcas']),
    'fmax': ('m.set_fcas_max_availability(fmax{c})\n', ['fmax']),
    'trap': ('m.set_joint_capacity_constraints(trap{c})\n', ['trap']),
    'rtrap': ('m.set_energy_and_regulation_capacity_constraints(rtrap{c})\n', ['rtrap']),
    'jr': ('m.set_joint_ramping_constraints_reg(scada_reg{c})\n', ['scada_reg']),
    'jr_first': ("m.set_joint_ramping_constraints_reg(scada_reg, fsp, 'fast_start_first_run'{c})\n", ['scada_reg', 'fsp']),
    'jr_second': ("m.set_joint_ramping_constraints_reg(scada_reg, fsp, 'fast_start_second_run'{c})\n", ['scada_reg', 'fsp']),
    'inter': ('m.set_interconnectors(inter)\n', ['inter']),
    'loss': ('m.set_interconnectors(inter)\nm.set_interconnector_losses(lossf, bps)\n', ['inter', 'lossf', 'bps']),
    'gen': ('m.set_generic_constraints(gen{c})\n', ['gen']),
    'gu': ('m.link_units_to_generic_constraints(gu)\n', ['gu']),
    'gr': ('m.link_regions_to_generic_constraints(gr)\n', ['gr']),
    'gi': ('m.link_interconnectors_to_generic_constraints(gi)\n', ['gi']),
    'tie': ('m.set_tie_break_constraints(7.0)\n', []),
}
COST = ', violation_cost=7.0'

B = {}      # name -> obligation


def add(name, body, tables, **kw):
    d = dict(name=name, body=body, tables=list(dict.fromkeys(tables)), aspects=('lp', 'cost', 'after', 'result', 'raise'),
             weight=1.0)
    d.update(kw)
    assert name not in B, name
    B[name] = d
    return name


def feature(keys, cost='', new=NEW, **kw):
    keys = keys.split('+')
    text, tables = new + VOL + PRI, list(BT)
    for k in keys:
        t, tb = FEATURES[k]
        text += t.replace('{c}', cost)
        tables += tb
    return text, tables


def simple(name, keys, cost='', tail='', new=NEW, **kw):
    text, tables = feature(keys, cost, new)
    return add(name, text + GO + tail, tables, **kw)


def opts(**kw):
    return kw


REGS = dict(services=['raise_reg', 'lower_reg'])
CONT = dict(services=['raise_reg', 'lower_reg', 'raise_6s', 'lower_5min'])

for k in ['cap', 'uigf', 'ramp', 'ramp_scada', 'ramp_first', 'ramp_second', 'ramp_second_bid', 'fs', 'demand', 'fcas',
          'fmax', 'trap', 'rtrap', 'jr', 'jr_first', 'jr_second', 'gen']:
    o = REGS if k.startswith('jr') or k == 'rtrap' else CONT if k in ('trap', 'fmax', 'fcas') else {}
    simple(k, k, gen=o)
    simple(k + '.soft', k, COST, gen=o)
for k in ['ramp', 'fs', 'jr', 'ramp_second_bid', 'jr_second']:
    simple(k + '.30min', k, new=NEW30, gen=REGS if k.startswith('jr') else {})
simple('inter', 'inter')
simple('loss', 'loss')
simple('tie', 'tie', gen=dict(ties=True))
simple('bids', 'demand+fcas', tail='return m.get_unit_dispatch()\n', bands=10)
add('bids.only', BASE + GO + 'return m.get_unit_dispatch()\n', BT, bands=10)
add('volumes.only', NEW + VOL + GO + 'return m.get_unit_dispatch()\n', BT[:2], bands=10)
simple('balance', 'loss+demand', tail='return [m.get_unit_dispatch(), m.get_region_dispatch_summary(), m.get_energy_prices()]\n')
simple('balance.soft', 'loss+demand', COST, tail='return m.get_elastic_constraints_violation_degree("demand")\n')
simple('balance.inter', 'inter+demand', tail='return [m.get_interconnector_flows(), m.get_region_dispatch_summary()]\n')
simple('balance.demand_first', 'demand+loss', tail='return [m.get_interconnector_flows(), m.get_region_dispatch_summary()]\n')
simple('balance.units', 'demand', tail='return [m.get_energy_prices(), m.get_region_dispatch_summary()]\n')
simple('flows', 'loss', tail='return m.get_interconnector_flows()\n')
simple('generic', 'inter+gen+gu+gr+gi', gen=CONT)
simple('generic.soft', 'inter+gen+gu+gr+gi', COST, tail='return m.get_elastic_constraints_violation_degree("generic")\n')
simple('generic.units', 'gen+gu', gen=CONT)
simple('generic.regions', 'gen+gr', gen=CONT)
simple('generic.order', 'gi+gu+gr+gen+inter')
simple('generic.fcas', 'fcas+gen+gu+gr+inter+gi', COST, tail='return m.get_fcas_prices()\n', gen=CONT)
simple('generic.fcas_only', 'fcas+gu+gr', gen=CONT)
simple('fcas.prices', 'fcas', tail='return m.get_fcas_prices()\n', gen=CONT)
simple('fcas.prices.soft', 'fcas+demand', COST, tail='return [m.get_fcas_prices(), m.get_energy_prices(), '
       'm.get_elastic_constraints_violation_degree("fcas"), m.get_elastic_constraints_violation_degree("demand")]\n', gen=CONT)
add('fcas.cost_table', feature('fcas')[0].replace('(fcas)', '(fcas, fcas_cost)') + GO +
    'return m.get_elastic_constraints_violation_degree("fcas")\n', BT + ['fcas', 'fcas_cost'], gen=CONT)
add('gen.cost_table', feature('gen')[0].replace('(gen)', '(gen, gen_cost)') + GO +
    'return m.get_elastic_constraints_violation_degree("generic")\n', BT + ['gen', 'gen_cost'])
simple('avail', 'fmax+trap+rtrap+jr+ramp', tail='return m.get_fcas_availability()\n', gen=CONT)
simple('avail.fmax', 'fmax', tail='return m.get_fcas_availability()\n', gen=CONT)
simple('avail.trap', 'trap', tail='return m.get_fcas_availability()\n', gen=CONT)
simple('avail.rtrap', 'rtrap+jr', tail='return m.get_fcas_availability()\n', gen=REGS)
simple('trapeziums', 'fmax+trap+rtrap', COST, gen=CONT)
simple('regulation', 'rtrap+jr+ramp', COST, gen=REGS)
OVER = 'm.dispatch(100.0, -100.0, 50.0, True)\nreturn [m.get_energy_prices(), m.get_fcas_prices(), m.get_unit_dispatch()]\n'
for n, keys, cost in [('over', 'demand+fcas+gen', COST), ('over.hard', 'demand+fcas+gen', '')]:
    t, tb = feature(keys, cost)
    add(n, t + OVER, tb, gen=CONT)
t, tb = feature('fcas+demand')
add('over.fcas', t.replace('(fcas)', '(fcas, 7.0)') + OVER, tb, gen=CONT)
t, tb = feature('demand+gen')
add('over.gen', t.replace('(gen)', '(gen, 7.0)') + 'm.dispatch(100.0, -100.0, 50.0, True)\nreturn m.get_energy_prices()\n', tb)
t, tb = feature('demand+fcas+gen', COST)
add('over.not_allowed', t + 'm.dispatch(100.0, -100.0, 50.0)\nreturn [m.get_energy_prices(), m.get_fcas_prices()]\n', tb, gen=CONT)
t, tb = feature('loss+demand+gen', COST)
add('over.losses', t + 'm.dispatch(100.0, -100.0, 50.0, allow_over_constrained_dispatch_re_run=True)\n'
    'return [m.get_energy_prices(), m.get_interconnector_flows(), m.objective_value]\n', tb)
simple('prices', 'loss+demand+fcas', tail='return [m.get_energy_prices(), m.get_fcas_prices()]\n')
simple('summary', 'loss+demand', tail='return m.get_region_dispatch_summary()\n')
simple('objective', 'demand', tail='return m.objective_value\n')
add('solver', BASE + "m.solver_name = 'GUROBI'\n" + GO, BT)

ALL1 = 'cap+uigf+ramp+fs+demand+fcas+fmax+trap+rtrap+jr+loss+gen+gu+gr+gi+tie'
ALL2 = 'gen+loss+gi+gr+jr+fcas+demand+fs+rtrap+uigf+tie+trap+ramp+gu+fmax+cap'
simple('everything', ALL1, COST, weight=0.35, gen=CONT)
simple('everything.reordered', ALL2, COST, weight=0.35, gen=CONT)
simple('everything.hard', ALL2, '', weight=0.35, gen=CONT)


# ---------------------------------------------------------------- setting a feature again (C20) and removal (C07)
def again(name, keys, cost1, cost2, between='', gen=None, weight=0.5, tail=''):
    """set the features, (dispatch,) set them again with other tables, dispatch"""
    text, tables = NEW + VOL + PRI, list(BT)
    for k in keys.split('+'):
        t, tb = FEATURES[k]
        text += t.replace('{c}', cost1)
        tables += tb
    text += between
    sub = {}
    for k in keys.split('+'):
        t, tb = FEATURES[k]
        for x in tb:
            if x != 'fsp' or True:
                t = __import__('re').sub(r'\b%s\b(?!\()' % x, x + '__2', t)
                sub[x] = x + '__2'
        text += t.replace('{c}', cost2)
        tables += [sub[x] for x in tb]
    return add(name, text + GO + tail, tables, weight=weight, gen=gen or {})


for k in ['cap', 'uigf', 'ramp', 'ramp_second_bid', 'fs', 'demand', 'fcas', 'fmax', 'trap', 'rtrap', 'jr', 'jr_second', 'gen']:
    o = REGS if k.startswith('jr') or k == 'rtrap' else CONT if k in ('trap', 'fmax', 'fcas') else {}
    again('again.' + k, k, COST, '', gen=o)
    again('again.soft.' + k, k, COST, COST, gen=o)
    again('again.dispatched.' + k, k, COST, '', between=GO, gen=o)
again('again.loss', 'loss', '', '')
again('again.inter', 'inter', '', '', between=GO)
again('again.links', 'inter+gen+gu+gr+gi', '', '')
add('again.tie', feature('tie')[0] + GO + 'm.set_tie_break_constraints(9.0)\n' + GO, BT, weight=0.5, gen=dict(ties=True))
add('again.bids', NEW + 'm.set_unit_volume_bids(volume_bids)\nm.set_unit_price_bids(price_bids)\n' + GO +
    'm.set_unit_volume_bids(volume_bids__2)\nm.set_unit_price_bids(price_bids__2)\n' + GO + 'return m.get_unit_dispatch()\n',
    BT + ['volume_bids__2', 'price_bids__2'], weight=0.5)
add('again.prices', BASE + 'm.set_unit_price_bids(price_bids__2)\n' + GO, BT + ['price_bids__2'], weight=0.5)
add('again.limits_then_bids', feature('cap+ramp+trap+fmax')[0] + GO + 'm.set_unit_volume_bids(volume_bids__2)\n'
    'm.set_unit_price_bids(price_bids__2)\n' + GO, feature('cap+ramp+trap+fmax')[1] + ['volume_bids__2', 'price_bids__2'],
    weight=0.5, gen=CONT)
t, tb = feature('demand+fcas+gen+cap', COST)
add('twice', t + GO + GO + 'return [m.get_unit_dispatch(), m.get_energy_prices(), m.get_fcas_prices(), '
    'm.get_elastic_constraints_violation_degree("demand")]\n', tb, weight=0.5, gen=CONT)
t, tb = feature('loss+demand', COST)
add('twice.losses', t + GO + GO + 'return [m.get_unit_dispatch(), m.get_interconnector_flows(), m.get_energy_prices(), '
    'm.get_region_dispatch_summary()]\n', tb, weight=0.5)
t, tb = feature('demand+fcas+gen', COST)
add('twice.over', t + OVER.split('return')[0] + OVER, tb, weight=0.5, gen=CONT)
t, tb = feature('fmax+trap+rtrap')
add('twice.avail', t + GO + 'a = m.get_fcas_availability()\n' + GO + 'return [m.get_fcas_availability(), a]\n', tb, weight=0.5, gen=CONT)
t, tb = feature('fs', COST)
add('fs.remove', t + 'm.remove_fast_start_constraints()\n' + GO + 'return m.get_elastic_constraints_violation_degree("fast_start")\n', tb)
add('fs.remove.dispatched', t + GO + 'm.remove_fast_start_constraints()\n' + GO + 'return m.get_unit_dispatch()\n', tb)
t, tb = feature('fs')
add('fs.remove.hard', t + 'm.remove_fast_start_constraints()\n' + GO, tb)
add('fs.remove.none', BASE + 'm.remove_fast_start_constraints()\n' + GO, BT)
t, tb = feature('cap+fs+demand', COST)
add('fs.remove.others', t + 'm.remove_fast_start_constraints()\n' + GO + 'return [m.get_unit_dispatch(), '
    'm.get_elastic_constraints_violation_degree("unit_bid_capacity")]\n', tb)

# ---------------------------------------------------------------- setting features in turn: ids stay apart (C01)
def turns(name, *steps, gen=None, weight=0.5):
    """steps: feature, feature! (soft), feature2 (with other tables), or a statement"""
    text, tables = NEW + VOL + PRI, list(BT)
    for s in steps:
        k = s.rstrip('!2')
        if k not in FEATURES:
            text += s + '\n'
            continue
        t, tb = FEATURES[k]
        if '2' in s:
            for x in tb:
                t = __import__('re').sub(r'\b%s\b(?!\()' % x, x + '__2', t)
            tb = [x + '__2' for x in tb]
        text += t.replace('{c}', COST if '!' in s else '')
        tables += tb
    return add('turns.' + name, text + GO, tables, gen=gen or {}, weight=weight)


DROP = 'm.remove_fast_start_constraints()'
turns('fs', 'fs', 'demand', DROP, 'cap', 'gen')
turns('fs.soft', 'fs!', 'cap', DROP, 'demand!', 'gen!')
turns('fs.again', 'demand', 'fs', 'gen', DROP, 'fs2', 'fcas')
turns('jr', 'jr', 'demand', 'jr_first', 'cap', 'gen', gen=REGS)
turns('jr.soft', 'jr!', 'cap', 'jr_second', 'demand!', 'gen', gen=REGS)
turns('ramp', 'ramp', 'demand', 'ramp2', 'cap', 'gen')
turns('demand', 'demand!', 'cap!', 'demand2', 'gen!', 'demand!', 'gen2')
turns('bids', 'cap', 'm.set_unit_volume_bids(volume_bids)', 'inter', 'demand!', 'm.set_unit_volume_bids(volume_bids)',
      'm.set_unit_price_bids(price_bids)', 'gen!')
turns('loss', 'inter', 'demand!', 'loss', 'cap!', 'loss', 'gen!')
turns('dispatched', 'demand!', GO, 'cap!', GO, 'demand', 'gen!')

# ---------------------------------------------------------------- softening (C12)
for k in ['cap', 'demand', 'gen', 'fcas', 'fs', 'ramp']:
    simple('free.' + k, k, ', violation_cost=0.0', gen=CONT if k == 'fcas' else {}, weight=0.5)
    simple('free.whole.' + k, k, ', violation_cost=0', gen=CONT if k == 'fcas' else {}, weight=0.3)
t, tb = feature('demand')
add('elastic.free', t + 'm.make_constraints_elastic("demand", 0.0)\n' + GO + 'return m.get_elastic_constraints_violation_degree("demand")\n', tb)
KEYS = {'cap': 'unit_bid_capacity', 'uigf': 'uigf_capacity', 'ramp': None, 'fs': None, 'demand': 'demand', 'fcas': 'fcas',
        'fmax': 'fcas_max_availability', 'trap': 'joint_capacity', 'rtrap': 'energy_and_regulation_capacity', 'gen': 'generic'}
for k, key in KEYS.items():
    if not key:
        continue
    t, tb = feature(k)
    o = REGS if k == 'rtrap' else CONT if k in ('trap', 'fmax', 'fcas') else {}
    add('elastic.' + k, t + 'm.make_constraints_elastic("%s", 11)\n' % key + GO +
        'return m.get_elastic_constraints_violation_degree("%s")\n' % key, tb, gen=o)
    add('elastic.again.' + k, t + 'm.make_constraints_elastic("%s", 11)\nm.make_constraints_elastic("%s", 13.5)\n' % (key, key) + GO +
        'return [m.get_elastic_constraints_violation_degree("%s"), m.get_elastic_constraints_violation_degree("other")]\n' % key,
        tb, gen=o, weight=0.5)
t, tb = feature('cap')
add('elastic.text_cost', t + 'm.make_constraints_elastic("unit_bid_capacity", "14000")\n' + GO, tb, weight=0.3)
add('elastic.none_cost', t + 'm.make_constraints_elastic("unit_bid_capacity", None)\n' + GO, tb, weight=0.3)
add('elastic.list_cost', t + 'm.make_constraints_elastic("unit_bid_capacity", [14000.0])\n' + GO, tb, weight=0.3)
add('elastic.unknown', t + 'm.make_constraints_elastic("no_such_constraints", 14000.0)\n' + GO, tb, weight=0.3)
add('elastic.not_set', BASE + 'm.make_constraints_elastic("demand", 14000.0)\n' + GO, BT, weight=0.3)
t, tb = feature('demand+cap', COST)
add('elastic.degree', t + GO + 'return [m.get_elastic_constraints_violation_degree("demand"), '
    'm.get_elastic_constraints_violation_degree("unit_bid_capacity"), m.get_elastic_constraints_violation_degree("fcas")]\n', tb)

# ---------------------------------------------------------------- order of calls (C19)
def order(name, body, tables, **kw):
    add('order.' + name, body, tables, weight=0.4, **kw)


order('price_bids', NEW + PRI, ['unit_info', 'volume_bids', 'price_bids'])
order('limits', NEW + FEATURES['cap'][0].replace('{c}', '') + GO, ['unit_info', 'unit_limits'])
order('uigf', NEW + FEATURES['uigf'][0].replace('{c}', '') + GO, ['unit_info', 'uigf'])
order('losses', BASE + 'm.set_interconnector_losses(lossf, bps)\n' + GO, BT + ['inter', 'lossf', 'bps'])
order('losses.ok', BASE + 'm.set_interconnectors(inter)\nm.set_interconnector_losses(lossf, bps)\n' + GO, BT + ['inter', 'lossf', 'bps'])
order('dispatch', NEW + GO, ['unit_info'])
order('dispatch.demand', NEW + FEATURES['demand'][0].replace('{c}', '') + GO, ['unit_info', 'demand'])
order('dispatch.soft_demand', NEW + FEATURES['demand'][0].replace('{c}', COST) + GO, ['unit_info', 'demand'])
order('bdu.volume', NEW + VOL + GO, ['unit_info', 'volume_bids'], gen=dict(bad_bdu=0.5))
order('bdu.price', NEW + VOL + 'm.set_unit_price_bids(price_bids)\n' + GO, BT, gen=dict(bad_bdu_price=0.5))
order('bdu.ramp', *[x for x in feature('ramp')][:2], gen=dict(bad_bdu_ramp=0.5))
for a, args in enumerate(['None, -100.0, 50.0, True', '100.0, None, 50.0, True', '100.0, -100.0, None, True', '100.0, -100.0, 50.0, True',
                          'None, None, None, False', 'None, -100.0, 50.0, False']):
    order('over.%d' % a, feature('demand')[0] + 'm.dispatch(%s)\nreturn m.get_energy_prices()\n' % args, BT + ['demand'])
order('run_type', BASE + "m.set_unit_ramp_rate_constraints(ramp, scada, fsp, 'second_run')\n" + GO, BT + ['ramp', 'scada', 'fsp'])
order('run_type.reg', BASE + "m.set_joint_ramping_constraints_reg(scada_reg, fsp, 'second_run')\n" + GO, BT + ['scada_reg', 'fsp'])


def names(*pats):
    import fnmatch
    out = []
    for p in pats:
        got = [n for n in B if fnmatch.fnmatchcase(n, p)]
        assert got, p
        out += got
    return list(dict.fromkeys(out))


PROPS = {
    'C01': names('everything*', 'generic.soft', 'balance.soft', 'trapeziums', 'regulation', 'twice', 'tie', 'ramp_scada.soft',
                 'jr.soft', 'again.bids', 'again.limits_then_bids', 'fcas.cost_table', 'volumes.only', 'again.soft.fs',
                 'again.soft.gen', 'elastic.again.gen', 'fs.remove.others', 'again.loss', 'turns*'),
    'C02': names('balance*', 'everything', 'demand*', 'twice.losses', 'again.demand', 'inter', 'loss', 'summary'),
    'C03': names('bids*', 'volumes.only', 'again.bids', 'demand', 'fcas', 'everything', 'bids'),
    'C04': names('bids*', 'objective', 'again.prices', 'again.bids', 'tie', 'cap.soft', 'demand.soft', 'fcas.cost_table',
                 'gen.cost_table', 'everything', 'everything.hard'),
    'C05': names('cap*', 'uigf*', 'again.cap', 'again.uigf', 'again.soft.cap', 'again.soft.uigf', 'again.dispatched.cap',
                 'again.dispatched.uigf', 'elastic.cap', 'elastic.uigf', 'order.limits', 'order.uigf', 'everything'),
    'C06': names('ramp*', 'again.ramp*', 'again.soft.ramp*', 'again.dispatched.ramp*', 'order.bdu.ramp', 'order.run_type',
                 'regulation', 'everything'),
    'C07': names('fs*', 'again.fs', 'again.soft.fs', 'again.dispatched.fs', 'everything'),
    'C08': names('fmax*', 'trap*', 'rtrap*', 'again.*fmax', 'again.*trap', 'elastic.fmax', 'elastic.*trap', 'regulation', 'everything',
                 'everything.reordered'),
    'C09': names('jr*', 'again.*jr*', 'regulation', 'order.run_type.reg', 'everything', 'everything.hard', 'avail.rtrap'),
    'C10': names('fcas*', 'again.*fcas', 'elastic.*fcas', 'generic.fcas*', 'prices', 'everything'),
    'C11': names('generic*', 'gen*', 'again.links', 'again.*gen', 'everything', 'everything.reordered'),
    'C12': names('*.soft', 'elastic*', 'free*', 'turns.demand', 'turns.dispatched', '*.cost_table', 'again.soft.*', 'tie', 'twice', 'everything', 'fs.remove'),
    'C13': names('inter', 'loss', 'flows', 'balance*', 'again.loss', 'again.inter', 'twice.losses', 'summary', 'everything',
                 'over.losses', 'order.losses*'),
    'C14': names('tie', 'again.tie', 'everything', 'everything.reordered'),
    'C15': names('over*', 'prices', 'twice*', 'balance*', 'fcas.prices*', 'order.over*', 'flows'),
    'C17': names('avail*', 'summary', 'flows', 'bids', 'balance*', 'fcas.prices*', 'prices', 'objective', 'twice*', 'elastic.degree'),
    'C19': names('order*', 'elastic.text_cost', 'elastic.none_cost', 'elastic.list_cost', 'elastic.unknown', 'elastic.not_set', 'elastic.free'),
    'C20': names('again*', 'twice*', 'fs.remove*', 'elastic.again*', 'turns*'),
}
