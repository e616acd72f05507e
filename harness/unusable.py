"""Keys and certificates of kinds the library cannot work with, one line PEM each."""

# expl: EC with explicit parameters, odd: an unknown curve, pss: RSA-PSS;
# ed, ed4: Ed25519 and Ed448, which can be stored but not used for receipts
KEYS = {
    'expl': (
        'MIIBSzCCAQMGByqGSM49AgEwgfcCAQEwLAYHKoZIzj0BAQIhAP////8AAAABAAAAAAAAAAAAAAAA//////////////'
        '//MFsEIP////8AAAABAAAAAAAAAAAAAAAA///////////////8BCBaxjXYqjqT57PrvVV2mIa8ZR0GsMxTsPY7zjw+'
        'J9JgSwMVAMSdNgiG5wSTamZ44ROdJreBn36QBEEEaxfR8uEsQkf4vOblY6RA8ncDfYEt6zOg9KE5RdiYwpZP40Li/h'
        'p/m47n60p8D54WK84zV2sxXs7LtkBoN79R9QIhAP////8AAAAA//////////+85vqtpxeehPO5ysL8YyVRAgEBA0IA'
        'BCVZDcjQ3YOMmTkSDfsiYnDFxvmAFjxd1l/TUQBA9Vrt9hKfezjL3FI4FIJ/FT7tYQ9FndGR+0SFUoYMQYR1y3k='
    ),
    'odd': (
        'MFUwEwYHKoZIzj0CAQYIKoZIzj0DAQQDPgAEFEBspJJvsscGdbRvnJqpU12LvQW3h1LaWbDM3sSiSLRVxNuQa8FLTa'
        'BUOk0Xt4a00eK0Sd+GxLXeOjor'
    ),
    'pss': (
        'MIIBIDALBgkqhkiG9w0BAQoDggEPADCCAQoCggEBAJ+hqRRHQ3qdUakUvMEwbsK6jJ2USgzMpXB9OrnecSQwJDWqp0'
        'J3IwCeS4+olaFPQ2/vU/sHwA85aS53L9db8KnOETog15jQWuBL18UU3VD8nwfP2aoRGhg9kdMEVd+kchdH9iLQNIeR'
        '52jdzUVJDAYXQtYFu1acSZRgIwwuEFcba7CR0oDyjkFMTxXLFKyuCFpFKyejPlV0s0OygOdmpFuLn7IHWtk/W3gKKv'
        'O5niMd9XRK0itzjPmXfAByg3u8OCkJgq+vQGQyUikAb/H3IxVbcAzMtKIOOn0bQ7CrfWeBXk7GT4Ecn0FGZcpe984U'
        '1GvF7yU3ZLLF8stTL6iTq9UCAwEAAQ=='
    ),
    'ed': (
        'MCowBQYDK2VwAyEAdAeghjuQxxEfsUBmb1gD8qRCrJLLb9gYul0plHCyb9M='
    ),
    'ed4': (
        'MEMwBQYDK2VxAzoAr6LKTIGpDiY38aCo2ytT6e+Ydu9KOByaKQDw2qqMqp3FdS/7FdvG9sYca9jC84nEO3Ff7gzkGc'
        'cA'
    ),
}

CERTS = {
    'expl': (
        'MIICTjCCAfSgAwIBAgIBTTAKBggqhkjOPQQDAjAMMQowCAYDVQQDDAF4MB4XDTI2MTExOTAwMzMwNVoXDTI5MDgxNT'
        'AwMzMwNVowDDEKMAgGA1UEAwwBeDCCAUswggEDBgcqhkjOPQIBMIH3AgEBMCwGByqGSM49AQECIQD/////AAAAAQAA'
        'AAAAAAAAAAAAAP///////////////zBbBCD/////AAAAAQAAAAAAAAAAAAAAAP///////////////AQgWsY12Ko6k+'
        'ez671VdpiGvGUdBrDMU7D2O848PifSYEsDFQDEnTYIhucEk2pmeOETnSa3gZ9+kARBBGsX0fLhLEJH+Lzm5WOkQPJ3'
        'A32BLeszoPShOUXYmMKWT+NC4v4af5uO5+tKfA+eFivOM1drMV7Oy7ZAaDe/UfUCIQD/////AAAAAP//////////vO'
        'b6racXnoTzucrC/GMlUQIBAQNCAAQlWQ3I0N2DjJk5Eg37ImJwxcb5gBY8XdZf01EAQPVa7fYSn3s4y9xSOBSCfxU+'
        '7WEPRZ3RkftEhVKGDEGEdct5o1MwUTAdBgNVHQ4EFgQU1Tqgf2hf9vwTvtgmK4sjEqBRTA4wHwYDVR0jBBgwFoAU1T'
        'qgf2hf9vwTvtgmK4sjEqBRTA4wDwYDVR0TAQH/BAUwAwEB/zAKBggqhkjOPQQDAgNIADBFAiBdAXSWZ3x1h7dCovl2'
        'FUJ+crSVQi3jr3HowG9lFHSLwgIhANVpeoOD5UCGq4phZL+90fI4iaArM/zOBm1Uqi/4M7qW'
    ),
    'odd': (
        'MIIBUDCB/KADAgECAgFNMAoGCCqGSM49BAMCMAwxCjAIBgNVBAMMAXgwHhcNMjYxMTE5MDAzMzA2WhcNMjkwODE1MD'
        'AzMzA2WjAMMQowCAYDVQQDDAF4MFUwEwYHKoZIzj0CAQYIKoZIzj0DAQQDPgAEFEBspJJvsscGdbRvnJqpU12LvQW3'
        'h1LaWbDM3sSiSLRVxNuQa8FLTaBUOk0Xt4a00eK0Sd+GxLXeOjoro1MwUTAdBgNVHQ4EFgQUm6liy5VbPevOlMvi+Z'
        'Fe4n121WswHwYDVR0jBBgwFoAUm6liy5VbPevOlMvi+ZFe4n121WswDwYDVR0TAQH/BAUwAwEB/zAKBggqhkjOPQQD'
        'AgNDADBAAh5jVQPazBuJzptUW3zPJBQwIiP0s1zAsjRk7oEgxq8CHlp5RLOvj+nVk/DnkdWIlCoYpB/JJ03ZbVuEY1'
        'aUTQ=='
    ),
    'pss': (
        'MIIDTjCCAgGgAwIBAgIBTTBCBgkqhkiG9w0BAQowNaAPMA0GCWCGSAFlAwQCAQUAoRwwGgYJKoZIhvcNAQEIMA0GCW'
        'CGSAFlAwQCAQUAogQCAgDeMAwxCjAIBgNVBAMMAXgwHhcNMjYxMTE5MDAzMzA2WhcNMjkwODE1MDAzMzA2WjAMMQow'
        'CAYDVQQDDAF4MIIBIDALBgkqhkiG9w0BAQoDggEPADCCAQoCggEBAJ+hqRRHQ3qdUakUvMEwbsK6jJ2USgzMpXB9Or'
        'necSQwJDWqp0J3IwCeS4+olaFPQ2/vU/sHwA85aS53L9db8KnOETog15jQWuBL18UU3VD8nwfP2aoRGhg9kdMEVd+k'
        'chdH9iLQNIeR52jdzUVJDAYXQtYFu1acSZRgIwwuEFcba7CR0oDyjkFMTxXLFKyuCFpFKyejPlV0s0OygOdmpFuLn7'
        'IHWtk/W3gKKvO5niMd9XRK0itzjPmXfAByg3u8OCkJgq+vQGQyUikAb/H3IxVbcAzMtKIOOn0bQ7CrfWeBXk7GT4Ec'
        'n0FGZcpe984U1GvF7yU3ZLLF8stTL6iTq9UCAwEAAaNTMFEwHQYDVR0OBBYEFC//YS2ItSXo7BXIGp+9kLmnrdaOMB'
        '8GA1UdIwQYMBaAFC//YS2ItSXo7BXIGp+9kLmnrdaOMA8GA1UdEwEB/wQFMAMBAf8wQgYJKoZIhvcNAQEKMDWgDzAN'
        'BglghkgBZQMEAgEFAKEcMBoGCSqGSIb3DQEBCDANBglghkgBZQMEAgEFAKIEAgIA3gOCAQEAd6eRhWkV6RwIZu8tMO'
        '8lFZp+RZzhrJkSPhvQak9sX/bJAg/T4T0Qkuhf2Bfenf+HnKMeU3yMnkTXHXX4GCOv9LiGIWXe2LZRL/LHXDRHnf2L'
        'UlhO9dunUVkz+TU2UvsJK+RqW85yRT7TQJUfFRPZAc8jvoHGRV7YlnLLsVNVzVy1EkHaJxLhI28YyHOIJIBXRlupuO'
        '+Er0XP5Od5mTrsBNX9AxTSxdpk1UErEaBFOSg3aLkDIC5qCqxw/AC/5dgHB4Clj69ZZMbKQY/i5shCJFPLmXf1IME3'
        '6u1+aKh9HY1rj3UEAIzJCnPoZPLW0C0bJIEBgYwLZJ5AfE0LNZ/7hA=='
    ),
    'ed': (
        'MIIBGTCBzKADAgECAgFNMAUGAytlcDAMMQowCAYDVQQDDAF4MB4XDTI2MTExOTAwMzMwNloXDTI5MDgxNTAwMzMwNl'
        'owDDEKMAgGA1UEAwwBeDAqMAUGAytlcAMhAHQHoIY7kMcRH7FAZm9YA/KkQqySy2/YGLpdKZRwsm/To1MwUTAdBgNV'
        'HQ4EFgQUycRA7uHrZAP0YUK7tMsSiqX850MwHwYDVR0jBBgwFoAUycRA7uHrZAP0YUK7tMsSiqX850MwDwYDVR0TAQ'
        'H/BAUwAwEB/zAFBgMrZXADQQDGvpI0ImEj7OLlGTgFWmmPLwqQ852B7AzaeCQWRSDXupARo4JQicrCNjRaNNOXM4sl'
        '228N3PQP9lo997qe1rQM'
    ),
    'ed4': (
        'MIIBZDCB5aADAgECAgFNMAUGAytlcTAMMQowCAYDVQQDDAF4MB4XDTI2MTExOTAwMzMwNloXDTI5MDgxNTAwMzMwNl'
        'owDDEKMAgGA1UEAwwBeDBDMAUGAytlcQM6AK+iykyBqQ4mN/GgqNsrU+nvmHbvSjgcmikA8NqqjKqdxXUv+xXbxvbG'
        'HGvYwvOJxDtxX+4M5BnHAKNTMFEwHQYDVR0OBBYEFFYFH6cEEWHA5slLc8S/4b663xJoMB8GA1UdIwQYMBaAFFYFH6'
        'cEEWHA5slLc8S/4b663xJoMA8GA1UdEwEB/wQFMAMBAf8wBQYDK2VxA3MAU0k/OF0C5OWfkcaoItZgQLoYPz0LLOff'
        'S6TbmTwlucd+UiR3JpvjPixnsnHCEElHj3DCRnkYQuIAkzFJcWKjGFclxmKUIA34TKWU6AHY9zsf1eusdENN22pnP2'
        '5UnauiQFM0gKosPufxLVAgwrLWtBEA'
    ),
}
