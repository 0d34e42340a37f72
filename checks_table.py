"""What each check builds and runs."""
BOTH = [('openssl', 'asan'), ('boringssl', 'asan')]
ONE = [('openssl', 'asan')]

# The library calls that C24 can make fail.
FALLIBLE = ['EVP_CIPHER_CTX_new', 'EVP_EncryptInit_ex', 'EVP_DecryptInit_ex', 'EVP_EncryptUpdate', 'EVP_DecryptUpdate',
            'EVP_CipherUpdate', 'EVP_EncryptFinal_ex', 'EVP_DecryptFinal_ex', 'EVP_CipherFinal_ex',
            'EVP_CIPHER_CTX_ctrl', 'HMAC_CTX_new', 'HMAC_Init_ex', 'HMAC_Update', 'HMAC_Final', 'EVP_AEAD_CTX_new',
            'EVP_AEAD_CTX_seal', 'EVP_AEAD_CTX_open', 'HKDF_expand', 'BIO_new']

TICKETS = '_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE'

PROXY = ['handshaker', 'frame', 'record', 'crypto', 'options', 'util', 'upb']

CHECKS = {
    'C01': dict(harness=['c01_aead.cc', 'c01_huge.cc'], sources=['aead'], builds=BOTH,
                rule='AEAD encrypt/decrypt of generated and enumerated messages and segmentations against an '
                     'independent reference AEAD; non-trivial: non-empty plaintext (see targets)'),
    'C02': dict(harness=['c02_forgery.cc'], sources=['aead'], builds=BOTH,
                rule='forged messages (enumerated bit flips, structural tampering) and operation histories against '
                     'the reference AEAD; non-trivial: the message is a forgery, or a success follows a failure'),
    'C03': dict(harness=['c03_args.cc'], sources=['aead'], builds=BOTH,
                rule='calls with generated defects, all key sizes, all too small outputs; non-trivial: the call is '
                     'invalid (or the key size / size query checked)'),
    'C04': dict(harness=['c04_hkdf.cc'], sources=['hkdf'], builds=BOTH,
                rule='HKDF inputs (every output, prk and info length in ranges; aliasing) against an independent RFC '
                     '5869 reference; non-trivial: valid and non-empty output'),
    'C09': dict(harness=['c09_handler.cc'], sources=['handler'], builds=ONE,
                rule='handshake message streams and their fragmentations against a byte-at-a-time reference parser; '
                     'non-trivial: a message is split over records (see targets)'),
    'C19': dict(harness=['c19_options.cc'], sources=['options'], builds=ONE,
                rule='operation histories on S2AOptions against a value model; non-trivial: see targets'),
    'C20': dict(harness=['c20_token.cc'], sources=['token', 'options'],
                builds=[('openssl', 'asan'), ('openssl', 'tsan')],
                rule='environment/token/identity histories against a model, and concurrent readers under TSan; '
                     'non-trivial: see targets'),
    'C22': dict(harness=['c22_errors.cc'], sources=['aead', 'hkdf'], builds=BOTH,
                rule='operation histories interleaved with foreign error-queue entries; non-trivial: see targets'),
    'C05': dict(harness=['c05_half.cc'], sources=['half', 'crypto'], builds=BOTH,
                rule='histories of operations and key updates on half connections, every power-of-two sequence '
                     'boundary, every secret size, against a reference TLS 1.3 key schedule and AEAD'),
    'C06': dict(harness=['c06_protect.cc'], sources=['record', 'crypto', 'options', 'util', 'upb'], builds=BOTH,
                rule='histories of records, refusals and key updates, all lengths and cuts, against reference TLS 1.3 '
                     'records'),
    'C07': dict(harness=['c07_unprotect.cc'], sources=['record', 'crypto', 'options', 'util', 'upb'], builds=BOTH,
                rule='genuine and badly framed records made by a reference TLS 1.3 sender; every type, alert code and '
                     'header byte'),
    'C08': dict(harness=['c08_adversary.cc'], sources=['record', 'crypto', 'options', 'util', 'upb'], builds=BOTH,
                rule='two endpoints with an adversary between them, against the log of what was sent by position'),
    'C10': dict(harness=['c10_posthandshake.cc'], sources=['record', 'crypto', 'options', 'util', 'upb'], builds=ONE,
                rule='streams of tickets and key updates cut into records, made by a reference sender, against a '
                     'byte-at-a-time model of keys and hand-over'),
    'C11': dict(harness=['c11_frames.cc', 'c11_huge.cc'], sources=['frame', 'record', 'crypto', 'options', 'util', 'upb'], builds=BOTH,
                rule='message streams in both directions through two frame protectors, both variants, any cuts, '
                     'against reference TLS 1.3 records; size queries against the closed formula'),
    'C12': dict(harness=['c12_malformed.cc'], sources=['frame', 'record', 'crypto', 'options', 'util', 'upb'], builds=ONE,
                rule='whole, partial, extended, altered and garbage record streams against a reference parser, with a '
                     'ledger of every allocated and released buffer'),
    'C13': dict(harness=['c13_threads.cc'], sources=['frame', 'record', 'crypto', 'options', 'util', 'upb'],
                builds=[('openssl', 'tsan'), ('boringssl', 'tsan'), ('openssl', 'asan')], workers=4, fuzz=False,
                technique='property-based testing: generated concurrent workloads and schedules under '
                          'ThreadSanitizer, results checked for serialisability against reference TLS 1.3 records',
                rule='generated concurrent workloads on one connection under ThreadSanitizer and AddressSanitizer'),
    'C14': dict(harness=['c14_requests.cc'], sources=PROXY, builds=ONE, proto=True,
                rule='histories of session requests for generated options, read back with a standard protobuf '
                     'implementation'),
    'C15': dict(harness=['c15_responses.cc'], sources=PROXY, builds=ONE, proto=True,
                link=['-Wl,--wrap=' + TICKETS],
                rule='histories of session responses made by a standard protobuf implementation (good, failing, '
                     'incomplete, damaged), then records against the reference TLS 1.3 keys'),
    'C16': dict(harness=['c16_tokens.cc'], sources=PROXY, builds=ONE, proto=True,
                rule='histories of requests, responses and token managers against the rule of which token goes where'),
    'C17': dict(harness=['c17_context.cc'], sources=['context', 'options', 'upb'], builds=ONE, proto=True,
                rule='generated contexts and encodings against a standard protobuf implementation, both ways'),
    'C18': dict(harness=['c18_convert.cc'], sources=['util', 'crypter_util', 'options', 'upb'], builds=ONE, proto=True,
                rule='every small number as version/ciphersuite in each direction, generated identities, against the '
                     'names in the schema'),
    'C21': dict(harness=['c21_tickets.cc'], sources=['sender', 'options', 'upb'], builds=ONE, proto=True,
                rule='generated ticket lists, ids and identities, read back by a standard protobuf implementation'),
    'C23': dict(harness=['c23_schema.cc'], sources=['upb'], builds=ONE, proto=True,
                rule='generated messages of every type through the shipped accessors and a standard protobuf '
                     'implementation, both ways'),
    'C24': dict(harness=['c24_faults.cc'], sources=['frame', 'record', 'crypto', 'options', 'util', 'upb'], builds=BOTH,
                link=['-Wl,--wrap=' + f for f in FALLIBLE],
                technique='property-based testing with fault injection: histories with a generated SSL library call '
                          'failing, against the reference and the state the failure must leave',
                rule='operation histories in which a generated call of the SSL library fails; non-trivial: a call failed'),
    'C25': dict(harness=['c25_secrets.cc'], sources=PROXY, builds=ONE, proto=True,
                link=['-Wl,--wrap=' + f for f in FALLIBLE + [TICKETS]],
                technique='property-based testing with fault injection: whole sessions, every message searched for secrets',
                rule='sessions, records and wrong calls with everything logged or reported searched for secrets; '
                     'non-trivial: something was logged or reported'),
    'C26': dict(harness=['c26_creation.cc'], sources=PROXY, builds=BOTH, link=['-Wl,--wrap=' + TICKETS],
                rule='creation parameters with up to two defects; non-trivial: every case'),
    'C27': dict(harness=['c27_sessions.cc'], sources=PROXY, builds=BOTH, proto=True, link=['-Wl,--wrap=' + TICKETS],
                technique='model-based property testing: whole sessions of two endpoints against a model of the service '
                          'and a reference TLS 1.3 record layer',
                rule='whole sessions between a client and a server; non-trivial: data went both ways'),
    'C28': dict(harness=['c28_proxy_threads.cc'], sources=PROXY,
                builds=[('openssl', 'tsan'), ('openssl', 'asan')], proto=True, workers=4, fuzz=False,
                technique='property-based testing of generated concurrent workloads under ThreadSanitizer; results '
                          'checked for a sequential explanation',
                rule='concurrent handshake calls; non-trivial: every finished handshake'),
    'C32': dict(harness=['c32_isolation.cc'], sources=PROXY + ['token'],
                builds=[('openssl', 'tsan'), ('openssl', 'asan'), ('boringssl', 'tsan')], proto=True, workers=4, fuzz=False,
                link=['-Wl,--wrap=' + TICKETS],
                technique='property-based testing: generated histories on separate objects, interleaved and in threads '
                          '(ThreadSanitizer), each against the same history alone',
                rule='histories on separate objects next to each other against each alone; non-trivial: every case'),
    'C33': dict(harness=['c33_interop.cc'], sources=PROXY, builds=ONE, proto=True, fuzz=False,
                link=['-Wl,--wrap=' + TICKETS],
                technique="differential property testing: generated conversations with a standard implementation of TLS "
                          "1.3 (OpenSSL's), which also does the handshake",
                rule='generated conversations between S2A and a standard TLS 1.3 peer; non-trivial: data went both '
                     'ways'),
    'C29': dict(of=['C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C16', 'C17',
                    'C18', 'C19', 'C21', 'C24', 'C25', 'C26', 'C27'],
                both=['C03', 'C04', 'C05', 'C24', 'C26'], share=10, fuzz=False,
                technique='property-based testing with fault injection: generated histories run under AddressSanitizer '
                          'and repeated while every allocation and release is recorded',
                rule='the histories of the other checks, repeated with every allocation and release recorded; '
                     'non-trivial: as in the check a target comes from'),
    'C30': dict(of=['C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C10', 'C12', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19',
                    'C21', 'C24', 'C26', 'C27'], both=['C03', 'C04', 'C24'], san='vg', share=100, fuzz=False,
                technique='property-based testing: generated histories executed under valgrind memcheck, every result '
                          'compared with the reference there',
                rule='the histories of the other checks under memcheck; non-trivial: as in the check a target comes '
                     'from'),
    'C31': dict(harness=['c31_long.cc'], sources=PROXY, builds=ONE, proto=True, fuzz=False,
                technique='model-based property testing: few, very long generated histories, each step against the '
                          'reference, with the memory held',
                rule='very long histories on one object; non-trivial: see targets'),
}
