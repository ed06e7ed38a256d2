"""property id -> harness modules"""
PROPS = {
    'P01': ['td'],
    'P02': ['traces'],
    'P03': ['coreloop'],
    'P04': ['veccore'],
    'P05': ['dataset'],
    'P06': ['dataset'],
    'P07': ['extrainfo'],
    'P08': ['replay'],
    'P09': ['replay'],
    'P10': ['replay'],
    'P11': ['dqn'],
    'P12': ['distdqn'],
    'P13': ['batchtd'],
    'P14': ['advantage'],
    'P15': ['deepac'],
    'P16': ['onpolicy'],
    'P17': ['tdpolicy'],
    'P18': ['policies'],
    'P19': ['torchpol'],
    'P20': ['params'],
    'P21': ['optim'],
    'P22': ['stats'],
    'P23': ['finite'],
    'P24': ['planners'],
    'P25': ['contenv'],
    'P26': ['polgrad'],
    'P27': ['blackbox'],
    'P28': ['features'],
    'P29': ['approx'],
    'P30': ['torchfit'],
    'P31': ['serial'],
    'P32': ['parallel'],
    'P33': ['simif'], 'P34': ['stateful'],
    'P35': ['records'], 'P36': ['records'],
}
