"""All contracts and lemmas."""
import re
from specs_wire import CON
import specs_keys
import specs_sig
import specs_cert
import specs_priv
import specs_x
import specs_signers
import specs_hw
import stdlib_state
import lemmas
LEMMAS = lemmas.LEMMAS

# parsing and verification entry points (C21): every function below is free of panics for every input
for _k, _c in CON.items():
    if _k.startswith('Reader::') or _k in (
            'ssh::cert::read_options', 'ssh::cert::read_principals', 'Certificate::from_bytes', 'Certificate::from_string',
            'KeyType::from_name', 'Curve::from_identifier',
            'PublicKey::from_reader', 'PublicKey::from_bytes', 'PublicKey::from_string',
            'PrivateKey::read_private_key', 'PrivateKey::from_bytes', 'PrivateKey::from_reader',
            'PrivateKey::from_string_with_passphrase', 'PrivateKey::from_string',
            'ssh::signature::verify_signature', 'SshSignature::from_reader', 'SshSignature::from_armored_string',
            'SshSignature::to_signed_format', 'VerifiedSshSignature::from_ssh_signature',
            'utils::asn_der_to_r_s', 'utils::signature_convert_asn1_ecdsa_to_ssh', 'utils::format_signature_for_ssh',
            'U2FAttestation::verify', 'AuthData::ssh_public_key', 'x509::convert_x509_pki_to_pubkey'):
        if 'C21' not in _c.props:
            _c.props = tuple(_c.props) + ('C21',)


def relevant(prop, obligation):
    """does a failure of this obligation contradict the property?"""
    if prop == 'C21':
        return obligation.startswith('no panic') or obligation.startswith('precondition')
    return True


def rests(prop, obligation):
    """does a round-trip lemma rest on this obligation of a contract it uses?  (readers that accept more, issuing that refuses more: no)"""
    if re.search(r': returns Ok\S* where Err', obligation):
        return False
    return not re.search(r'(Certificate::(sign|add_signature|builder)|SSHCertificateSigner>::sign): returns (Err|None)\S* where', obligation)
