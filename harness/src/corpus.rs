//! Real and openssl-made certificates, embedded.

const CERTS: &[&[u8]] = &[
    include_bytes!("../corpus/512b-rsa-example-cert.der"),
    include_bytes!("../corpus/ACCVRAIZ1.der"),
    include_bytes!("../corpus/AC_RAIZ_FNMT-RCM.der"),
    include_bytes!("../corpus/AC_RAIZ_FNMT-RCM_SERVIDORES_SEGUROS.der"),
    include_bytes!("../corpus/Actalis_Authentication_Root_CA.der"),
    include_bytes!("../corpus/COMODO_ECC_Certification_Authority.der"),
    include_bytes!("../corpus/Certigna_Root_CA.der"),
    include_bytes!("../corpus/D-TRUST_BR_Root_CA_1_2020.der"),
    include_bytes!("../corpus/DigiCert_Global_Root_G3.der"),
    include_bytes!("../corpus/Hellenic_Academic_and_Research_Institutions_ECC_RootCA_2015.der"),
    include_bytes!("../corpus/ISRG_Root_X1.der"),
    include_bytes!("../corpus/ISRG_Root_X2.der"),
    include_bytes!("../corpus/Izenpe.com.der"),
    include_bytes!("../corpus/Microsec_e-Szigno_Root_CA_2009.der"),
    include_bytes!("../corpus/NetLock_Arany.der"),
    include_bytes!("../corpus/SSL.com_Root_Certification_Authority_ECC.der"),
    include_bytes!("../corpus/Telia_Root_CA_v2.der"),
    include_bytes!("../corpus/cert_with_generalized_time.der"),
    include_bytes!("../corpus/ed25519-example-cert.der"),
    include_bytes!("../corpus/gen-dirname.der"),
    include_bytes!("../corpus/gen-full.der"),
    include_bytes!("../corpus/gen-ku1.der"),
    include_bytes!("../corpus/gen-longdates.der"),
    include_bytes!("../corpus/gen-negserial.der"),
    include_bytes!("../corpus/gen-path.der"),
    include_bytes!("../corpus/gen-role.der"),
    include_bytes!("../corpus/google_root_cert.der"),
];

pub fn certs() -> Vec<Vec<u8>> {
    CERTS.iter().map(|c| c.to_vec()).collect()
}
pub fn certs_ref() -> &'static [&'static [u8]] {
    CERTS
}
