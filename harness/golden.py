"""The documented contents of the shipped specifications, written down once
(data_enc, len_enc, len_type, max_len, desc) so that monitors do not trust the
tables under test."""

DEFAULT = {
    'h': ('ascii', 'ascii', 0, 0, 'Message Header'),
    't': ('ascii', 'ascii', 0, 4, 'Message Type'),
    'p': ('b', 'ascii', 0, 8, 'Bitmap, Primary'),
    '1': ('b', 'ascii', 0, 8, 'Bitmap, Secondary'),
    '2': ('ascii', 'ascii', 2, 19, 'Primary Account Number (PAN)'),
    '3': ('ascii', 'ascii', 0, 6, 'Processing Code'),
    '4': ('ascii', 'ascii', 0, 12, 'Amount, Transaction'),
    '5': ('ascii', 'ascii', 0, 12, 'Amount, Settlement'),
    '6': ('ascii', 'ascii', 0, 12, 'Amount, Cardholder Billing'),
    '7': ('ascii', 'ascii', 0, 10, 'Transmission Date and Time'),
    '8': ('ascii', 'ascii', 0, 8, 'Amount, Cardholder Billing Fee'),
    '9': ('ascii', 'ascii', 0, 8, 'Conversion Rate, Settlement'),
    '10': ('ascii', 'ascii', 0, 8, 'Conversion Rate, Cardholder Billing'),
    '11': ('ascii', 'ascii', 0, 6, 'System Trace Audit Number'),
    '12': ('ascii', 'ascii', 0, 6, 'Time, Local Transaction'),
    '13': ('ascii', 'ascii', 0, 4, 'Date, Local Transaction'),
    '14': ('ascii', 'ascii', 0, 4, 'Date, Expiration'),
    '15': ('ascii', 'ascii', 0, 4, 'Date, Settlement'),
    '16': ('ascii', 'ascii', 0, 4, 'Date, Conversion'),
    '17': ('ascii', 'ascii', 0, 4, 'Date, Capture'),
    '18': ('ascii', 'ascii', 0, 4, 'Merchant Type'),
    '19': ('ascii', 'ascii', 0, 3, 'Acquiring Institution Country Code'),
    '20': ('ascii', 'ascii', 0, 3, 'PAN Country Code'),
    '21': ('ascii', 'ascii', 0, 3, 'Forwarding Institution Country Code'),
    '22': ('ascii', 'ascii', 0, 3, 'Point-of-Service Entry Mode'),
    '23': ('ascii', 'ascii', 0, 3, 'PAN Sequence Number'),
    '24': ('ascii', 'ascii', 0, 3, 'Network International ID (NII)'),
    '25': ('ascii', 'ascii', 0, 2, 'Point-of-Service Condition Code'),
    '26': ('ascii', 'ascii', 0, 2, 'Point-of-Service Capture Code'),
    '27': ('ascii', 'ascii', 0, 1, 'Authorizing ID Response Length'),
    '28': ('ascii', 'ascii', 0, 9, 'Amount, Transaction Fee'),
    '29': ('ascii', 'ascii', 0, 9, 'Amount, Settlement Fee'),
    '30': ('ascii', 'ascii', 0, 9, 'Amount, Transaction Processing Fee'),
    '31': ('ascii', 'ascii', 0, 9, 'Amount, Settlement Processing Fee'),
    '32': ('ascii', 'ascii', 2, 11, 'Acquiring Institution ID Code'),
    '33': ('ascii', 'ascii', 2, 11, 'Forwarding Institution ID Code'),
    '34': ('ascii', 'ascii', 2, 28, 'Primary Account Number, Extended'),
    '35': ('ascii', 'ascii', 2, 37, 'Track 2 Data'),
    '36': ('ascii', 'ascii', 3, 104, 'Track 3 Data'),
    '37': ('ascii', 'ascii', 0, 12, 'Retrieval Reference Number'),
    '38': ('ascii', 'ascii', 0, 6, 'Authorization ID Response'),
    '39': ('ascii', 'ascii', 0, 2, 'Response Code'),
    '40': ('ascii', 'ascii', 0, 3, 'Service Restriction Code'),
    '41': ('ascii', 'ascii', 0, 8, 'Card Acceptor Terminal ID'),
    '42': ('ascii', 'ascii', 0, 15, 'Card Acceptor ID Code'),
    '43': ('ascii', 'ascii', 0, 40, 'Card Acceptor Name/Location'),
    '44': ('ascii', 'ascii', 2, 25, 'Additional Response Data'),
    '45': ('ascii', 'ascii', 2, 76, 'Track 1 Data'),
    '46': ('ascii', 'ascii', 3, 999, 'Additional Data - ISO'),
    '47': ('ascii', 'ascii', 3, 999, 'Additional Data - National'),
    '48': ('ascii', 'ascii', 3, 999, 'Additional Data - Private'),
    '49': ('ascii', 'ascii', 0, 3, 'Currency Code, Transaction'),
    '50': ('ascii', 'ascii', 0, 3, 'Currency Code, Settlement'),
    '51': ('ascii', 'ascii', 0, 3, 'Currency Code, Cardholder Billing'),
    '52': ('b', 'ascii', 0, 8, 'PIN'),
    '53': ('ascii', 'ascii', 0, 16, 'Security-Related Control Information'),
    '54': ('ascii', 'ascii', 3, 240, 'Additional Amounts'),
    '55': ('b', 'ascii', 3, 255, 'ICC data'),
    '56': ('ascii', 'ascii', 3, 999, 'Reserved ISO'),
    '57': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '58': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '59': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '60': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '61': ('ascii', 'ascii', 3, 999, 'Reserved Private'),
    '62': ('ascii', 'ascii', 3, 999, 'Reserved Private'),
    '63': ('ascii', 'ascii', 3, 999, 'Reserved Private'),
    '64': ('b', 'ascii', 0, 8, 'MAC'),
    '65': ('b', 'ascii', 0, 8, 'Bitmap, Extended'),
    '66': ('ascii', 'ascii', 0, 1, 'Settlement Code'),
    '67': ('ascii', 'ascii', 0, 2, 'Extended Payment Code'),
    '68': ('ascii', 'ascii', 0, 3, 'Receiving Institution Country Code'),
    '69': ('ascii', 'ascii', 0, 3, 'Settlement Institution Country Code'),
    '70': ('ascii', 'ascii', 0, 3, 'Network Management Information Code'),
    '71': ('ascii', 'ascii', 0, 4, 'Message Number'),
    '72': ('ascii', 'ascii', 0, 4, 'Message Number, Last'),
    '73': ('ascii', 'ascii', 0, 6, 'Date, Action'),
    '74': ('ascii', 'ascii', 0, 10, 'Credits, Number'),
    '75': ('ascii', 'ascii', 0, 10, 'Credits, Reversal Number'),
    '76': ('ascii', 'ascii', 0, 10, 'Debits, Number'),
    '77': ('ascii', 'ascii', 0, 10, 'Debits, Reversal Number'),
    '78': ('ascii', 'ascii', 0, 10, 'Transfer, Number'),
    '79': ('ascii', 'ascii', 0, 10, 'Transfer, Reversal Number'),
    '80': ('ascii', 'ascii', 0, 10, 'Inquiries, Number'),
    '81': ('ascii', 'ascii', 0, 10, 'Authorizations, Number'),
    '82': ('ascii', 'ascii', 0, 12, 'Credits, Processing Fee Amount'),
    '83': ('ascii', 'ascii', 0, 12, 'Credits, Transaction Fee Amount'),
    '84': ('ascii', 'ascii', 0, 12, 'Debits, Processing Fee Amount'),
    '85': ('ascii', 'ascii', 0, 12, 'Debits, Transaction Fee Amount'),
    '86': ('ascii', 'ascii', 0, 16, 'Credits, Amount'),
    '87': ('ascii', 'ascii', 0, 16, 'Credits, Reversal Amount'),
    '88': ('ascii', 'ascii', 0, 16, 'Debits, Amount'),
    '89': ('ascii', 'ascii', 0, 16, 'Debits, Reversal Amount'),
    '90': ('ascii', 'ascii', 0, 42, 'Original Data Elements'),
    '91': ('ascii', 'ascii', 0, 1, 'File Update Code'),
    '92': ('ascii', 'ascii', 0, 2, 'File Security Code'),
    '93': ('ascii', 'ascii', 0, 5, 'Response Indicator'),
    '94': ('ascii', 'ascii', 0, 7, 'Service Indicator'),
    '95': ('ascii', 'ascii', 0, 42, 'Replacement Amounts'),
    '96': ('b', 'ascii', 0, 8, 'Message Security Code'),
    '97': ('ascii', 'ascii', 0, 17, 'Amount, Net Settlement'),
    '98': ('ascii', 'ascii', 0, 25, 'Payee'),
    '99': ('ascii', 'ascii', 2, 11, 'Settlement Institution ID Code'),
    '100': ('ascii', 'ascii', 2, 11, 'Receiving Institution ID Code'),
    '101': ('ascii', 'ascii', 2, 17, 'File Name'),
    '102': ('ascii', 'ascii', 2, 28, 'Account ID 1'),
    '103': ('ascii', 'ascii', 2, 28, 'Account ID 2'),
    '104': ('ascii', 'ascii', 3, 100, 'Transaction Description'),
    '105': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '106': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '107': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '108': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '109': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '110': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '111': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '112': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '113': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '114': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '115': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '116': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '117': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '118': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '119': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '120': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '121': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '122': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '123': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '124': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '125': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '126': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '127': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '128': ('b', 'ascii', 0, 8, 'MAC'),
}

DEFAULT_ASCII = {
    'h': ('ascii', 'ascii', 0, 0, 'Message Header'),
    't': ('ascii', 'ascii', 0, 4, 'Message Type'),
    'p': ('ascii', 'ascii', 0, 16, 'Bitmap, Primary'),
    '1': ('ascii', 'ascii', 0, 16, 'Bitmap, Secondary'),
    '2': ('ascii', 'ascii', 2, 19, 'Primary Account Number (PAN)'),
    '3': ('ascii', 'ascii', 0, 6, 'Processing Code'),
    '4': ('ascii', 'ascii', 0, 12, 'Amount, Transaction'),
    '5': ('ascii', 'ascii', 0, 12, 'Amount, Settlement'),
    '6': ('ascii', 'ascii', 0, 12, 'Amount, Cardholder Billing'),
    '7': ('ascii', 'ascii', 0, 10, 'Transmission Date and Time'),
    '8': ('ascii', 'ascii', 0, 8, 'Amount, Cardholder Billing Fee'),
    '9': ('ascii', 'ascii', 0, 8, 'Conversion Rate, Settlement'),
    '10': ('ascii', 'ascii', 0, 8, 'Conversion Rate, Cardholder Billing'),
    '11': ('ascii', 'ascii', 0, 6, 'System Trace Audit Number'),
    '12': ('ascii', 'ascii', 0, 6, 'Time, Local Transaction'),
    '13': ('ascii', 'ascii', 0, 4, 'Date, Local Transaction'),
    '14': ('ascii', 'ascii', 0, 4, 'Date, Expiration'),
    '15': ('ascii', 'ascii', 0, 4, 'Date, Settlement'),
    '16': ('ascii', 'ascii', 0, 4, 'Date, Conversion'),
    '17': ('ascii', 'ascii', 0, 4, 'Date, Capture'),
    '18': ('ascii', 'ascii', 0, 4, 'Merchant Type'),
    '19': ('ascii', 'ascii', 0, 3, 'Acquiring Institution Country Code'),
    '20': ('ascii', 'ascii', 0, 3, 'PAN Country Code'),
    '21': ('ascii', 'ascii', 0, 3, 'Forwarding Institution Country Code'),
    '22': ('ascii', 'ascii', 0, 3, 'Point-of-Service Entry Mode'),
    '23': ('ascii', 'ascii', 0, 3, 'PAN Sequence Number'),
    '24': ('ascii', 'ascii', 0, 3, 'Network International ID (NII)'),
    '25': ('ascii', 'ascii', 0, 2, 'Point-of-Service Condition Code'),
    '26': ('ascii', 'ascii', 0, 2, 'Point-of-Service Capture Code'),
    '27': ('ascii', 'ascii', 0, 1, 'Authorizing ID Response Length'),
    '28': ('ascii', 'ascii', 0, 9, 'Amount, Transaction Fee'),
    '29': ('ascii', 'ascii', 0, 9, 'Amount, Settlement Fee'),
    '30': ('ascii', 'ascii', 0, 9, 'Amount, Transaction Processing Fee'),
    '31': ('ascii', 'ascii', 0, 9, 'Amount, Settlement Processing Fee'),
    '32': ('ascii', 'ascii', 2, 11, 'Acquiring Institution ID Code'),
    '33': ('ascii', 'ascii', 2, 11, 'Forwarding Institution ID Code'),
    '34': ('ascii', 'ascii', 2, 28, 'Primary Account Number, Extended'),
    '35': ('ascii', 'ascii', 2, 37, 'Track 2 Data'),
    '36': ('ascii', 'ascii', 3, 104, 'Track 3 Data'),
    '37': ('ascii', 'ascii', 0, 12, 'Retrieval Reference Number'),
    '38': ('ascii', 'ascii', 0, 6, 'Authorization ID Response'),
    '39': ('ascii', 'ascii', 0, 2, 'Response Code'),
    '40': ('ascii', 'ascii', 0, 3, 'Service Restriction Code'),
    '41': ('ascii', 'ascii', 0, 8, 'Card Acceptor Terminal ID'),
    '42': ('ascii', 'ascii', 0, 15, 'Card Acceptor ID Code'),
    '43': ('ascii', 'ascii', 0, 40, 'Card Acceptor Name/Location'),
    '44': ('ascii', 'ascii', 2, 25, 'Additional Response Data'),
    '45': ('ascii', 'ascii', 2, 76, 'Track 1 Data'),
    '46': ('ascii', 'ascii', 3, 999, 'Additional Data - ISO'),
    '47': ('ascii', 'ascii', 3, 999, 'Additional Data - National'),
    '48': ('ascii', 'ascii', 3, 999, 'Additional Data - Private'),
    '49': ('ascii', 'ascii', 0, 3, 'Currency Code, Transaction'),
    '50': ('ascii', 'ascii', 0, 3, 'Currency Code, Settlement'),
    '51': ('ascii', 'ascii', 0, 3, 'Currency Code, Cardholder Billing'),
    '52': ('ascii', 'ascii', 0, 16, 'PIN'),
    '53': ('ascii', 'ascii', 0, 16, 'Security-Related Control Information'),
    '54': ('ascii', 'ascii', 3, 240, 'Additional Amounts'),
    '55': ('ascii', 'ascii', 3, 510, 'ICC data'),
    '56': ('ascii', 'ascii', 3, 999, 'Reserved ISO'),
    '57': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '58': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '59': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '60': ('ascii', 'ascii', 3, 999, 'Reserved National'),
    '61': ('ascii', 'ascii', 3, 999, 'Reserved Private'),
    '62': ('ascii', 'ascii', 3, 999, 'Reserved Private'),
    '63': ('ascii', 'ascii', 3, 999, 'Reserved Private'),
    '64': ('ascii', 'ascii', 0, 16, 'MAC'),
    '65': ('ascii', 'ascii', 0, 16, 'Bitmap, Extended'),
    '66': ('ascii', 'ascii', 0, 1, 'Settlement Code'),
    '67': ('ascii', 'ascii', 0, 2, 'Extended Payment Code'),
    '68': ('ascii', 'ascii', 0, 3, 'Receiving Institution Country Code'),
    '69': ('ascii', 'ascii', 0, 3, 'Settlement Institution Country Code'),
    '70': ('ascii', 'ascii', 0, 3, 'Network Management Information Code'),
    '71': ('ascii', 'ascii', 0, 4, 'Message Number'),
    '72': ('ascii', 'ascii', 0, 4, 'Message Number, Last'),
    '73': ('ascii', 'ascii', 0, 6, 'Date, Action'),
    '74': ('ascii', 'ascii', 0, 10, 'Credits, Number'),
    '75': ('ascii', 'ascii', 0, 10, 'Credits, Reversal Number'),
    '76': ('ascii', 'ascii', 0, 10, 'Debits, Number'),
    '77': ('ascii', 'ascii', 0, 10, 'Debits, Reversal Number'),
    '78': ('ascii', 'ascii', 0, 10, 'Transfer, Number'),
    '79': ('ascii', 'ascii', 0, 10, 'Transfer, Reversal Number'),
    '80': ('ascii', 'ascii', 0, 10, 'Inquiries, Number'),
    '81': ('ascii', 'ascii', 0, 10, 'Authorizations, Number'),
    '82': ('ascii', 'ascii', 0, 12, 'Credits, Processing Fee Amount'),
    '83': ('ascii', 'ascii', 0, 12, 'Credits, Transaction Fee Amount'),
    '84': ('ascii', 'ascii', 0, 12, 'Debits, Processing Fee Amount'),
    '85': ('ascii', 'ascii', 0, 12, 'Debits, Transaction Fee Amount'),
    '86': ('ascii', 'ascii', 0, 16, 'Credits, Amount'),
    '87': ('ascii', 'ascii', 0, 16, 'Credits, Reversal Amount'),
    '88': ('ascii', 'ascii', 0, 16, 'Debits, Amount'),
    '89': ('ascii', 'ascii', 0, 16, 'Debits, Reversal Amount'),
    '90': ('ascii', 'ascii', 0, 42, 'Original Data Elements'),
    '91': ('ascii', 'ascii', 0, 1, 'File Update Code'),
    '92': ('ascii', 'ascii', 0, 2, 'File Security Code'),
    '93': ('ascii', 'ascii', 0, 5, 'Response Indicator'),
    '94': ('ascii', 'ascii', 0, 7, 'Service Indicator'),
    '95': ('ascii', 'ascii', 0, 42, 'Replacement Amounts'),
    '96': ('ascii', 'ascii', 0, 16, 'Message Security Code'),
    '97': ('ascii', 'ascii', 0, 17, 'Amount, Net Settlement'),
    '98': ('ascii', 'ascii', 0, 25, 'Payee'),
    '99': ('ascii', 'ascii', 2, 11, 'Settlement Institution ID Code'),
    '100': ('ascii', 'ascii', 2, 11, 'Receiving Institution ID Code'),
    '101': ('ascii', 'ascii', 2, 17, 'File Name'),
    '102': ('ascii', 'ascii', 2, 28, 'Account ID 1'),
    '103': ('ascii', 'ascii', 2, 28, 'Account ID 2'),
    '104': ('ascii', 'ascii', 3, 100, 'Transaction Description'),
    '105': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '106': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '107': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '108': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '109': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '110': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '111': ('ascii', 'ascii', 3, 999, 'Reserved for ISO Use'),
    '112': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '113': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '114': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '115': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '116': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '117': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '118': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '119': ('ascii', 'ascii', 3, 999, 'Reserved for National Use'),
    '120': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '121': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '122': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '123': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '124': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '125': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '126': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '127': ('ascii', 'ascii', 3, 999, 'Reserved for Private Use'),
    '128': ('ascii', 'ascii', 0, 16, 'MAC'),
}

KEYS = ("data_enc", "len_enc", "len_type", "max_len", "desc")


def spec(table):
    """a specification with private entries"""
    return {k: dict(zip(KEYS, v)) for k, v in table.items()}
