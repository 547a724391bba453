"""Reference: the nempy name of each AEMO name."""
SERVICES = {'ENERGY': 'energy', 'TOTALCLEARED': 'energy'}
for _d, _n in [('RAISE', 'raise'), ('LOWER', 'lower')]:
    SERVICES[_d + 'REG'] = _n + '_reg'
    SERVICES[_d + '5MIN'] = _n + '_5min'
    for _s in ['1', '6', '60']:
        SERVICES[_d + _s + 'SEC'] = _n + '_' + _s + 's'
DIRECTIONS = {'GENERATOR': 'generator', 'LOAD': 'load'}
COLUMNS = {
    'DUID': 'unit', 'BIDTYPE': 'service', 'DISPATCHTYPE': 'dispatch_type', 'DIRECTION': 'dispatch_type',
    'MAXAVAIL': 'capacity', 'UIGF': 'capacity', 'INITIALMW': 'initial_output',
    'MinLoadingMW': 'min_loading', 'CurrentMode': 'current_mode', 'CurrentModeTime': 'time_in_current_mode',
    'T1': 'mode_one_length', 'T2': 'mode_two_length', 'T3': 'mode_three_length', 'T4': 'mode_four_length',
    'LOSSFACTOR': 'loss_factor', 'CONNECTIONPOINTID': 'connection_point', 'REGIONID': 'region',
    'INTERCONNECTORID': 'interconnector', 'LOSSCONSTANT': 'loss_constant', 'LOSSFLOWCOEFFICIENT': 'flow_coefficient',
    'FROMREGIONLOSSSHARE': 'from_region_loss_share', 'DEMANDCOEFFICIENT': 'demand_coefficient',
    'LOSSSEGMENT': 'loss_segment', 'MWBREAKPOINT': 'break_point',
    'RAMPUPRATE': 'ramp_up_rate', 'RAMPDOWNRATE': 'ramp_down_rate',
    'SCADARAMPUPRATE': 'scada_ramp_up_rate', 'SCADARAMPDOWNRATE': 'scada_ramp_down_rate'}


def nempy_name(x):
    for names in [SERVICES, DIRECTIONS, COLUMNS]:
        if x in names:
            return names[x]
    return None


def map_aemo_column_names_to_nempy_names(dataframe):
    for c in dataframe.columns:
        if nempy_name(c) is None:
            raise ValueError('no mapping')
    return dataframe.rename(columns={c: nempy_name(c) for c in dataframe.columns})


ALL = {}
ALL.update(SERVICES)
ALL.update(DIRECTIONS)
ALL.update(COLUMNS)


def map_aemo_column_values_to_nempy_name(dataframe, column):
    dataframe = dataframe.copy()
    dataframe[column] = dataframe[column].apply(lambda x: ALL[x])
    return dataframe
