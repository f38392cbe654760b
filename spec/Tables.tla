------------------------------ MODULE Tables -------------------------------
(* Registers of names: what each field is called and how it is described,   *)
(* device types, response codes, application identifiers.                   *)
EXTENDS BitRows

DeviceTypes == <<
    <<"00", "Card">>,
    <<"01", "Mobile Phone or Smartphone with Mobile Network Operator (MNO) controlled removable secure element (SIM or UICC) personalized for use with a mobile phone or smartphone">>,
    <<"02", "Key Fob">>,
    <<"03", "Watch using a contactless chip or a fixed (non-removable) secure element not controlled by the MNO">>,
    <<"04", "Mobile Tag">>,
    <<"05", "Wristband">>,
    <<"06", "Mobile Phone Case or Sleeve">>,
    <<"07", "Mobile phone or smartphone with a fixed (non-removable) secure element controlled by the MNO, for example, code division multiple access (CDMA)">>,
    <<"08", "Removable secure element not controlled by the MNO, for example, memory card personalized for used with a mobile phone or smartphone">>,
    <<"09", "Mobile Phone or smartphone with a fixed (non-removable) secure element not controlled by the MNO">>,
    <<"10", "MNO controlled removable secure element (SIM or UICC) personalized for use with a tablet or e-book">>,
    <<"11", "Tablet or e-book with a fixed (non-removable) secure element controlled by the MNO">>,
    <<"12", "Removable secure element not controlled by the MNO, for example, memory card personalized for use with a tablet or e-book">>,
    <<"13", "Tablet or e-book with fixed (non-removable) secure element not controlled by the MNO">>,
    <<"14", "Mobile phone or smartphone with a payment application running in a host processor">>,
    <<"15", "Tablet or e-book with a payment application running in a host processor">>,
    <<"16", "Mobile phone or smartphone with a payment application running in the Trusted Execution Environment (TEE) of a host processor">>,
    <<"17", "Tablet or e-book with a payment application running in the TEE of a host processor">>,
    <<"18", "Watch with a payment application running in the TEE of a host processor">>,
    <<"19", "Watch with a payment application running in a host processor">>,
    <<"20", "Card">>,
    <<"21", "Phone (Mobile phone)">>,
    <<"22", "Tablet/e-reader (Tablet computer or e-reader)">>,
    <<"23", "Watch/Wristband (Watch or wristband, including a fitness band, smart strap, disposable band, watch add-on, and security/ID band)">>,
    <<"24", "Sticker">>,
    <<"25", "PC (PC or laptop)">>,
    <<"26", "Device Peripheral (Mobile phone case or sleeve)">>,
    <<"27", "Tag (Key fob or mobile tag)">>,
    <<"28", "Jewelry (Ring, bracelet, necklace, and cuff links)">>,
    <<"29", "Fashion Accessory (Handbag, bag charm, and glasses)">>,
    <<"30", "Garment (Dress)">>,
    <<"31", "Domestic Appliance (Refrigerator, washing machine)">>,
    <<"32", "Vehicle (Vehicle, including vehicle attached devices)">>,
    <<"33", "Media/Gaming Device (Media or gaming device, including a set top box, media player, and television)">>>>

ResponseCodes == <<
    <<"00", "Approved or completed successfully">>,
    <<"01", "Refer to card issuer">>,
    <<"02", "Refer to card issuer's special conditions">>,
    <<"03", "Invalid merchant">>,
    <<"04", "Pick-up">>,
    <<"05", "Do not honour">>,
    <<"06", "Error">>,
    <<"07", "Pick-up card, special condition">>,
    <<"08", "Honour with identification">>,
    <<"09", "Request in progress">>,
    <<"0A", "No reason to decline">>,
    <<"0B", "Approved but fees disputed">>,
    <<"0C", "Approved, unable to process online">>,
    <<"0D", "Approved, transaction processed offline">>,
    <<"0E", "Approved, transaction processed offline after referral">>,
    <<"10", "Approved for partial amount">>,
    <<"11", "Approved (VIP)">>,
    <<"12", "Invalid transaction">>,
    <<"13", "Invalid amount">>,
    <<"14", "Invalid card/cardholder number">>,
    <<"15", "No such issuer (invalid IIN)">>,
    <<"16", "Approved, update track 3">>,
    <<"17", "Customer cancellation">>,
    <<"18", "Customer dispute">>,
    <<"19", "Re-enter transaction">>,
    <<"1A", "Additional consumer authentication required">>,
    <<"1B", "Cashback not allowed">>,
    <<"1C", "Cashback amount exceeded">>,
    <<"1D", "Surcharge amount not permitted for card product">>,
    <<"1E", "Surcharge not permitted by selected network">>,
    <<"1F", "Exceeds pre-authorized amount">>,
    <<"1G", "Currency unacceptable to card issuer">>,
    <<"1H", "Authorization lifecycle unacceptable">>,
    <<"1I", "Authorization lifecycle has expired">>,
    <<"1J", "Message sequence number error">>,
    <<"1K", "Payment date invalid">>,
    <<"1L", "Stop payment order - Specific pre-authorized payment">>,
    <<"1M", "Stop payment order - All pre-authorized payments for merchant">>,
    <<"1N", "Stop payment order - Account">>,
    <<"1O", "Recurring data error">>,
    <<"1P", "Scheduled transactions exist">>,
    <<"1W", "Cheque already posted">>,
    <<"1X", "Declined, unable to process offline">>,
    <<"1Y", "Declined, transaction processed offline">>,
    <<"1Z", "Declined, transaction processed offline after referral">>,
    <<"20", "Invalid response">>,
    <<"21", "No action taken">>,
    <<"22", "Suspected malfunction">>,
    <<"23", "Unacceptable transaction fee">>,
    <<"24", "File update not supported by receiver">>,
    <<"25", "Unable to locate record on file">>,
    <<"26", "Duplicate file update record, old record replaced">>,
    <<"27", "File update field edit error">>,
    <<"28", "File update file locked out">>,
    <<"29", "File update not successful">>,
    <<"2A", "Duplicate, new record rejected">>,
    <<"2B", "Unknown file">>,
    <<"2C", "Invalid security code">>,
    <<"2D", "Database error">>,
    <<"2E", "Update not allowed">>,
    <<"2F", "Not authorized and fees disputed">>,
    <<"30", "Format error">>,
    <<"31", "Acquirer bank not supported">>,
    <<"32", "Completed partially">>,
    <<"33", "Expired card">>,
    <<"34", "Suspected fraud">>,
    <<"35", "Card acceptor contact acquirer">>,
    <<"36", "Restricted card">>,
    <<"37", "Card acceptor call acquirer security">>,
    <<"38", "Allowable PIN tries exceeded">>,
    <<"39", "No credit account">>,
    <<"3A", "Suspected counterfeit card, pick up card">>,
    <<"3B", "Daily withdrawal uses exceeded">>,
    <<"3C", "Daily withdrawal amount exceeded">>,
    <<"40", "Requested function not supported">>,
    <<"41", "Lost card, pick-up">>,
    <<"42", "No universal account">>,
    <<"43", "Stolen card, pick-up">>,
    <<"44", "No investment account">>,
    <<"45", "No account of type requested">>,
    <<"46", "Closed account, or restricted for closing">>,
    <<"47", "From account bad status">>,
    <<"48", "To account bad status">>,
    <<"49", "Bad debt">>,
    <<"4A", "Card not effective">>,
    <<"4B", "Closed savings account, or restricted for closing">>,
    <<"4C", "Closed credit account or restricted for closing">>,
    <<"4D", "Closed credit facility cheque account or restricted for closing">>,
    <<"4E", "Closed cheque account or restricted for closing">>,
    <<"51", "Not sufficient funds">>,
    <<"52", "No chequing account">>,
    <<"53", "No savings account">>,
    <<"54", "Expired card">>,
    <<"55", "Incorrect personal identification number">>,
    <<"56", "No card record">>,
    <<"57", "Transaction not permitted to cardholder">>,
    <<"58", "Transaction not permitted to terminal">>,
    <<"59", "Suspected fraud">>,
    <<"5A", "Suspected counterfeit card">>,
    <<"5B", "Transaction does not fulfill Anti-Money Laundering requirements">>,
    <<"5C", "Transaction not supported by the card issuer">>,
    <<"60", "Card acceptor contact acquirer">>,
    <<"61", "Exceeds withdrawal amount limit">>,
    <<"62", "Restricted card">>,
    <<"63", "Security violation">>,
    <<"64", "Original amount incorrect">>,
    <<"65", "Exceeds withdrawal frequency limit">>,
    <<"66", "Card acceptor call acquirer's security department">>,
    <<"67", "Hard capture (requires that card be picked up at ATM)">>,
    <<"68", "Response received too late">>,
    <<"6P", "Verification data failed">>,
    <<"6Q", "No communication keys available for use">>,
    <<"6R", "MAC key sync error">>,
    <<"6S", "MAC incorrect">>,
    <<"6T", "Security software/hardware error - try again">>,
    <<"6U", "Security software/hardware error - do not retry">>,
    <<"6V", "Encryption key sync error">>,
    <<"6W", "Key verification failed. Key check value does not match">>,
    <<"6X", "Key sync error">>,
    <<"6Y", "Missing required data to verify/process PIN">>,
    <<"6Z", "Invalid PIN block">>,
    <<"70", "PIN data required">>,
    <<"71", "New PIN invalid">>,
    <<"72", "PIN change required">>,
    <<"73", "PIN is not allowed for transaction">>,
    <<"74", "PIN length error">>,
    <<"75", "Allowable number of PIN tries exceeded">>,
    <<"8A", "Reconciled, in balance">>,
    <<"8B", "Amount not reconciled, totals provided">>,
    <<"8C", "Totals not available">>,
    <<"8D", "Not reconciled, totals provided">>,
    <<"8E", "Ineligible to receive financial position information">>,
    <<"8F", "Reconciliation cutover or checkpoint error">>,
    <<"8G", "Advice acknowledged, no financial liability accepted">>,
    <<"8H", "Advice acknowledged, financial liability accepted">>,
    <<"8I", "Message number out of sequence">>,
    <<"8W", "Perform Stand-In Processing (STIP)">>,
    <<"8X", "Currently unable to perform request; try later">>,
    <<"8Y", "Card issuer signed off">>,
    <<"8Z", "Card issuer timed out">>,
    <<"90", "Cutoff is in process (switch ending a day's business and starting the next. Transaction can be sent again in a few minutes)">>,
    <<"91", "Issuer or switch is unavailable or inoperative">>,
    <<"92", "Financial institution or intermediate network facility cannot be found for routing">>,
    <<"93", "Transaction cannot be completed. Violation of law">>,
    <<"94", "Duplicate transmission">>,
    <<"95", "Reconcile error">>,
    <<"96", "System malfunction">>,
    <<"9A", "Violation of business arrangement">>,
    <<"9B", "No matching original transaction">>,
    <<"9C", "Original transaction was declined">>,
    <<"9D", "Bank not found">>,
    <<"9E", "Bank not effective">>,
    <<"9F", "Information not on file">>>>

Info(t, name, desc, fmt, act, vfmt, max) ==
    [t |-> t, name |-> name, desc |-> desc, fmt |-> fmt, act |-> act, vfmt |-> vfmt, max |-> max]

InfoTable == <<
    Info(66, "Issuer Identification Number (IIN)",
        "The number that identifies the major industry and the card issuer and that forms the first part of the Primary Account Number (PAN)",
        "N", "val", "N", 6),
    Info(79, "Application Dedicated File (ADF) Name",
        "Identifies the application as described in ISO/IEC 7816-4",
        "B", "aid", "", 0),
    Info(80, "Application Label",
        "Mnemonic associated with the AID according to ISO/IEC 7816-4",
        "ANS", "val", "ANS", 16),
    Info(86, "Track 1 Data",
        "Contains the data objects of the track 1 according to ISO/IEC 7813 Structure B, excluding start sentinel, end sentinel and Longitudinal Redundancy Check (LRC)",
        "ANS", "val", "ANS", 76),
    Info(87, "Track 2 Equivalent Data",
        "Contains the data elements of track 2 according to ISO/IEC 7813, excluding start sentinel, end sentinel, and Longitudinal Redundancy Check (LRC)",
        "B", "track2", "", 0),
    Info(90, "Application Primary Account Number (PAN)",
        "Valid cardholder account number",
        "CN", "val", "CN", 19),
    Info(97, "Application Template",
        "Contains one or more data objects relevant to an application directory entry according to ISO/IEC 7816-4",
        "B", "none", "", 0),
    Info(111, "File Control Information (FCI) Template",
        "Identifies the FCI template according to ISO/IEC 7816-4",
        "VAR", "none", "", 0),
    Info(112, "EMV Data Template",
        "Contains EMV data",
        "VAR", "none", "", 0),
    Info(113, "Issuer Script Template 1",
        "Contains proprietary issuer data for transmission to the ICC before the second GENERATE AC command",
        "VAR", "none", "", 0),
    Info(114, "Issuer Script Template 2",
        "Contains proprietary issuer data for transmission to the ICC after the second GENERATE AC command",
        "VAR", "none", "", 0),
    Info(115, "Directory Discretionary Template",
        "Issuer discretionary part of the directory according to ISO/IEC 7816-4",
        "VAR", "none", "", 0),
    Info(119, "Response Message Template Format 2",
        "Contains the data objects (with tags and lengths) returned by the ICC in response to a command",
        "VAR", "none", "", 0),
    Info(128, "Response Message Template Format 1",
        "Contains the data objects (without tags and lengths) returned by the ICC in response to a command",
        "VAR", "none", "", 0),
    Info(129, "Amount, Authorised (Binary)",
        "Authorised amount of the transaction (excluding adjustments)",
        "B", "amount", "", 0),
    Info(130, "Application Interchange Profile (AIP)",
        "Indicates the capabilities of the card to support specific functions in the application",
        "B", "aip", "", 0),
    Info(131, "Command Template",
        "Identifies the data field of a command message",
        "VAR", "none", "", 0),
    Info(132, "Dedicated File (DF) Name",
        "Identifies the name of the Dedicated File (DF) as described in ISO/IEC 7816-4",
        "B", "dfname", "", 0),
    Info(134, "Issuer Script Command",
        "Contains a command for transmission to the ICC",
        "VAR", "capdu", "", 0),
    Info(135, "Application Priority Indicator",
        "Indicates the priority of a given application or group of applications in a directory",
        "B", "none", "", 0),
    Info(136, "Short File Identifier (SFI)",
        "Identifies the Application Elementary File (AEF) referenced in commands related to a given Application Definition File or Directory Definition File (DDF). It is a binary data object having a value in the range 1 - 30 and with the three high order bits set to zero.",
        "B", "none", "", 0),
    Info(137, "Authorisation Code",
        "Value generated by the authorisation authority (issuer) for an approved transaction",
        "ANS", "val", "ANS", 6),
    Info(138, "Authorisation Response Code",
        "Code that defines the disposition of a message",
        "AN", "arc", "", 0),
    Info(140, "Card Risk Management Data Object List 1 (CDOL1)",
        "List of data objects (tag and length) to be passed to the ICC in the first GENERATE AC command",
        "DOL", "none", "", 0),
    Info(141, "Card Risk Management Data Object List 2 (CDOL2)",
        "List of data objects (tag and length) to be passed to the ICC in the second GENERATE AC command",
        "DOL", "none", "", 0),
    Info(142, "Cardholder Verification Method (CVM) List",
        "Identifies a method of verification of the cardholder supported by the application",
        "B", "cvmlist", "", 0),
    Info(143, "Certification Authority Public Key (CAPK) Index",
        "Identifies the certification authority's public key in conjunction with the RID",
        "B", "none", "", 0),
    Info(144, "Issuer Public Key Certificate",
        "Issuer public key certified by a certification authority",
        "B", "none", "", 0),
    Info(145, "Issuer Authentication Data",
        "Data sent to the ICC for online issuer authentication",
        "B", "issauth", "", 0),
    Info(146, "Issuer Public Key Remainder",
        "Remaining digits of the Issuer Public Key Modulus",
        "B", "none", "", 0),
    Info(147, "Signed Static Application Data",
        "Digital signature on critical application parameters for SDA",
        "B", "none", "", 0),
    Info(148, "Application File Locator (AFL)",
        "Indicates the location (SFI, range of records) of the Application Elementary Files (AEFs) related to a given application",
        "VAR", "afltxt", "", 0),
    Info(149, "Terminal Verification Results (TVR)",
        "Status of the different functions as seen from the terminal",
        "B", "tvr", "", 0),
    Info(154, "Transaction Date",
        "Local date that the transaction was authorised",
        "N", "date", "", 0),
    Info(155, "Transaction Status Information (TSI)",
        "Indicates the functions performed in a transaction",
        "B", "tsi", "", 0),
    Info(156, "Transaction Type",
        "Indicates the type of financial transaction, represented by the first two digits of the ISO 8583:1987 Processing Code. The actual values to be used for the Transaction Type data element are defined by the relevant payment system.",
        "N", "txntype", "", 0),
    Info(157, "Directory Definition File (DDF) Name",
        "Identifies the name of a Dedicated File (DF) associated with a directory",
        "B", "none", "", 0),
    Info(165, "File Control Information (FCI) Proprietary Template",
        "Identifies the data object proprietary to this specification in the File Control Information (FCI) template according to ISO/IEC 7816-4",
        "VAR", "none", "", 0),
    Info(24352, "Cardholder Name",
        "Indicates cardholder name according to ISO 7813",
        "ANS", "val", "ANS", 26),
    Info(24356, "Application Expiration Date",
        "Date after which application expires",
        "N", "date", "", 0),
    Info(24357, "Application Effective Date",
        "Date from which the application may be used",
        "N", "date", "", 0),
    Info(24360, "Issuer Country Code",
        "Indicates the country of the issuer according to ISO 3166",
        "N", "country", "", 0),
    Info(24362, "Transaction Currency Code",
        "Indicates the currency code of the transaction according to ISO 4217",
        "N", "currency", "", 0),
    Info(24365, "Language Preference",
        "1-4 languages stored in order of preference, each represented by 2 alphabetical characters according to ISO 639",
        "AN", "langpref", "", 0),
    Info(24368, "Service Code",
        "Service code as defined in ISO/IEC 7813 for track 1 and track 2",
        "N", "val", "N", 3),
    Info(24372, "Application Primary Account Number (PAN) Sequence Number",
        "Identifies and differentiates cards with the same PAN",
        "N", "none", "", 0),
    Info(24374, "Transaction Currency Exponent",
        "Indicates the implied position of the decimal point from the right of the transaction amount represented according to ISO 4217",
        "N", "none", "", 0),
    Info(24400, "Issuer URL",
        "The URL provides the location of the issuer's Library Server on the Internet",
        "ANS", "val", "ANS", 0),
    Info(24403, "International Bank Account Number (IBAN)",
        "Uniquely identifies the account of a customer at a financial institution as defined in ISO 13616.",
        "VAR", "val", "AN", 34),
    Info(24404, "Bank Identifier Code (BIC)",
        "Uniquely identifies a bank as defined in ISO 9362.",
        "VAR", "val", "AN", 11),
    Info(24405, "Issuer Country Code (alpha2 format)",
        "Indicates the country of the issuer as defined in ISO 3166 (using a 2 character alphabetic code)",
        "A", "country2", "", 0),
    Info(24406, "Issuer Country Code (alpha3 format)",
        "Indicates the country of the issuer as defined in ISO 3166 (using a 3 character alphabetic code)",
        "A", "country3", "", 0),
    Info(24407, "Account Type",
        "Indicates the type of account selected on the terminal, coded as specified in Annex G",
        "N", "acctype", "", 0),
    Info(40705, "Acquirer Identifier",
        "Uniquely identifies the acquirer within each payment system",
        "N", "val", "N", 11),
    Info(40706, "Amount, Authorised (Numeric)",
        "Authorised amount of the transaction (excluding adjustments)",
        "N", "val", "N", 12),
    Info(40707, "Amount, Other (Numeric)",
        "Secondary amount associated with the transaction representing a cashback amount",
        "N", "val", "N", 12),
    Info(40708, "Amount, Other (Binary)",
        "Secondary amount associated with the transaction representing a cashback amount",
        "B", "amount", "", 0),
    Info(40709, "Application Discretionary Data",
        "Issuer or payment system specified data relating to the application",
        "B", "none", "", 0),
    Info(40710, "Application Identifier (AID) - terminal",
        "Identifies the application as described in ISO/IEC 7816-4",
        "B", "aid", "", 0),
    Info(40711, "Application Usage Control",
        "Indicates issuer's specified restrictions on the geographic usage and services allowed for the application",
        "B", "auc", "", 0),
    Info(40712, "Application Version Number",
        "Version number assigned by the payment system for the application",
        "B", "none", "", 0),
    Info(40713, "Application Version Number - terminal",
        "Version number assigned by the payment system for the application",
        "B", "none", "", 0),
    Info(40714, "Application Selection Registered Proprietary Data (ASRPD)",
        "Proprietary data allowing for proprietary processing during application selection. Proprietary data is identified using Proprietary Data Identifiers that are managed by EMVCo and their usage by the Application Selection processing is according to their intended usage, as agreed by EMVCo during registration.",
        "B", "asrpd", "", 0),
    Info(40715, "Cardholder Name Extended",
        "Indicates the whole cardholder name when greater than 26 characters using the same coding convention as in ISO/IEC 7813",
        "ANS", "val", "ANS", 45),
    Info(40716, "Issuer Identification Number Extended (IINE)",
        "The number that identifies the major industry and the card issuer and that forms the first part of the Primary Account Number (PAN).\nWhile the first 6 digits of the IINE (tag '9F0C') and IIN (tag '42') are the same and there is no need to have both data objects on the card, cards may have both the IIN and IINE data objects present.",
        "N", "val", "N", 8),
    Info(40717, "Issuer Action Code (IAC) - Default",
        "Specifies the issuer's conditions that cause a transaction to be rejected if it might have been approved online, but the terminal is unable to process the transaction online",
        "B", "tvr", "", 0),
    Info(40718, "Issuer Action Code (IAC) - Denial",
        "Specifies the issuer's conditions that cause the denial of a transaction without attempt to go online",
        "B", "tvr", "", 0),
    Info(40719, "Issuer Action Code (IAC) - Online",
        "Specifies the issuer's conditions that cause a transaction to be transmitted online",
        "B", "tvr", "", 0),
    Info(40720, "Issuer Application Data",
        "Contains proprietary application data for transmission to the issuer in an online transaction.",
        "B", "iad", "", 0),
    Info(40721, "Issuer Code Table Index",
        "Indicates the code table according to ISO/IEC 8859 for displaying the Application Preferred Name",
        "N", "none", "", 0),
    Info(40722, "Application Preferred Name",
        "Preferred mnemonic associated with the AID",
        "ANS", "val", "ANS", 16),
    Info(40723, "Last Online Application Transaction Counter (ATC) Register",
        "Application Transaction Counter (ATC) value of the last transaction that went online",
        "B", "none", "", 0),
    Info(40724, "Lower Consecutive Offline Limit",
        "Issuer-specified preference for the maximum number of consecutive offline transactions for this ICC application allowed in a terminal with online capability",
        "B", "none", "", 0),
    Info(40725, "Merchant Category Code (MCC)",
        "Classifies the type of business being done by the merchant, represented according to ISO 8583:1993 for Card Acceptor Business Code.",
        "N", "mcc", "", 0),
    Info(40726, "Merchant Identifier",
        "When concatenated with the Acquirer Identifier, uniquely identifies a given merchant",
        "ANS", "val", "ANS", 15),
    Info(40727, "Personal Identification Number (PIN) Try Counter",
        "Number of PIN tries remaining",
        "B", "none", "", 0),
    Info(40728, "Issuer Script Identifier",
        "Identification of the Issuer Script",
        "B", "none", "", 0),
    Info(40729, "Token Requestor ID",
        "Uniquely identifies the pairing of the Token Requestor with the Token Domain, as defined in the EMV Payment Tokenisation Framework",
        "N", "none", "", 0),
    Info(40730, "Terminal Country Code",
        "Indicates the country of the terminal, represented according to ISO 3166",
        "N", "country", "", 0),
    Info(40731, "Terminal Floor Limit",
        "Indicates the floor limit in the terminal in conjunction with the AID",
        "B", "amount", "", 0),
    Info(40732, "Terminal Identification",
        "Designates the unique location of a terminal at a merchant",
        "AN", "val", "AN", 8),
    Info(40733, "Terminal Risk Management Data",
        "Application-specific value used by the contactless card or payment device for risk management purposes. All RFU bits must be set to zero.",
        "B", "trmd", "", 0),
    Info(40734, "Interface Device (IFD) Serial Number",
        "Unique and permanent serial number assigned to the IFD by the manufacturer",
        "AN", "val", "AN", 8),
    Info(40735, "Track 1 Discretionary Data",
        "Discretionary part of track 1 according to ISO/IEC 7813",
        "ANS", "val", "ANS", 0),
    Info(40736, "Track 2 Discretionary Data",
        "Discretionary part of track 2 according to ISO/IEC 7813",
        "CN", "val", "CN", 0),
    Info(40737, "Transaction Time",
        "Local time that the transaction was authorised",
        "N", "time", "", 0),
    Info(40738, "Certification Authority Public Key (CAPK) Index",
        "Identifies the certification authority's public key in conjunction with the RID",
        "B", "none", "", 0),
    Info(40739, "Upper Consecutive Offline Limit",
        "Issuer-specified preference for the maximum number of consecutive offline transactions for this ICC application allowed in a terminal without online capability",
        "B", "none", "", 0),
    Info(40740, "Payment Account Reference (PAR)",
        "A non-financial reference assigned to each unique PAN and used to link a Payment Account represented by that PAN to affiliated Payment Tokens, as defined in the EMV Tokenisation Framework. The PAR may be assigned in advance of Payment Token issuance.",
        "AN", "val", "AN", 29),
    Info(40741, "Last 4 Digits of PAN",
        "The last four digits of the PAN, as defined in the EMV Payment Tokenisation Framework",
        "N", "val", "N", 4),
    Info(40742, "Application Cryptogram",
        "Cryptogram returned by the ICC in response of the GENERATE AC command",
        "B", "none", "", 0),
    Info(40743, "Cryptogram Information Data",
        "Indicates the type of cryptogram and the actions to be performed by the terminal",
        "B", "cid", "", 0),
    Info(40754, "Issuer Public Key Exponent",
        "Issuer public key exponent used for the verification of the Signed Static Application Data and the ICC Public Key Certificate",
        "B", "none", "", 0),
    Info(40755, "Terminal Capabilities",
        "Indicates the card data input, CVM, and security capabilities of the terminal",
        "B", "termcaps", "", 0),
    Info(40756, "Cardholder Verification Method (CVM) Results",
        "Indicates the results of the last CVM performed",
        "B", "cvmres", "", 0),
    Info(40757, "Terminal Type",
        "Indicates the environment of the terminal, its communications capability, and its operational control",
        "N", "termtype", "", 0),
    Info(40758, "Application Transaction Counter (ATC)",
        "Counter maintained by the application in the ICC (incrementing the ATC is managed by the ICC)",
        "B", "none", "", 0),
    Info(40759, "Unpredictable Number",
        "Value to provide variability and uniqueness to the generation of a cryptogram",
        "B", "none", "", 0),
    Info(40760, "Processing Options Data Object List (PDOL)",
        "Contains a list of terminal resident data objects (tags and lengths) needed by the ICC in processing the GET PROCESSING OPTIONS command",
        "DOL", "none", "", 0),
    Info(40761, "Point-of-Service (POS) Entry Mode",
        "Indicates the method by which the PAN was entered, according to the first two digits of the ISO 8583:1987 POS Entry Mode",
        "N", "posentry", "", 0),
    Info(40762, "Amount, Reference Currency",
        "Authorised amount expressed in the reference currency",
        "B", "amount", "", 0),
    Info(40763, "Application Reference Currency",
        "1-4 currency codes used between the terminal and the ICC when the Transaction Currency Code is different from the Application Currency Code; each code is 3 digits according to ISO 4217",
        "N", "refcur", "", 0),
    Info(40764, "Transaction Reference Currency",
        "Code defining the common currency used by the terminal in case the Transaction Currency Code is different from the Application Currency Code",
        "N", "currency", "", 0),
    Info(40765, "Transaction Reference Currency Exponent",
        "Indicates the implied position of the decimal point from the right of the transaction amount, with the Transaction Reference Currency Code represented according to ISO 4217",
        "N", "none", "", 0),
    Info(40768, "Additional Terminal Capabilities",
        "Indicates the data input and output capabilities of the terminal",
        "B", "addlcaps", "", 0),
    Info(40769, "Transaction Sequence Counter",
        "Counter maintained by the terminal that is incremented by one for each transaction",
        "N", "val", "N", 8),
    Info(40770, "Application Currency Code",
        "Indicates the currency in which the account is managed according to ISO 4217",
        "N", "currency", "", 0),
    Info(40771, "Application Reference Currency Exponent",
        "Indicates the implied position of the decimal point from the right of the amount, for each of the 1-4 reference currencies represented according to ISO 4217",
        "N", "none", "", 0),
    Info(40772, "Application Currency Exponent",
        "Indicates the implied position of the decimal point from the right of the amount represented according to ISO 4217",
        "N", "none", "", 0),
    Info(40773, "Data Authentication Code",
        "An issuer assigned value that is retained by the terminal during the verification process of the Signed Static Application Data",
        "B", "none", "", 0),
    Info(40774, "Integrated Circuit Card (ICC) Public Key Certificate",
        "ICC Public Key certified by the issuer",
        "B", "none", "", 0),
    Info(40775, "Integrated Circuit Card (ICC) Public Key Exponent",
        "ICC Public Key Exponent used for the verification of the Signed Dynamic Application Data",
        "B", "none", "", 0),
    Info(40776, "Integrated Circuit Card (ICC) Public Key Remainder",
        "Remaining digits of the ICC Public Key Modulus",
        "B", "none", "", 0),
    Info(40777, "Dynamic Data Authentication Data Object List (DDOL)",
        "List of data objects (tag and length) to be passed to the ICC in the INTERNAL AUTHENTICATE command",
        "DOL", "none", "", 0),
    Info(40778, "Static Data Authentication (SDA) Tag List",
        "List of tags of primitive data objects defined in this specification whose value fields are to be included in the Signed Static or Dynamic Application Data",
        "TAG_LIST", "none", "", 0),
    Info(40780, "Integrated Circuit Card (ICC) Dynamic Number",
        "Time-variant number generated by the ICC, to be captured by the terminal",
        "B", "none", "", 0),
    Info(40781, "Log Entry",
        "Provides the SFI of the Transaction Log file and its number of records",
        "B", "none", "", 0),
    Info(40782, "Merchant Name and Location",
        "Indicates the name and location of the merchant",
        "ANS", "val", "ANS", 0),
    Info(40806, "Terminal Transaction Qualifiers (TTQ)",
        "Indicates the requirements for online and CVM processing as a result of Entry Point processing. The scope of this tag is limited to Entry Point. Kernels may use this tag for different purposes.",
        "B", "ttq", "", 0),
    Info(40812, "Card Transaction Qualifiers (CTQ)",
        "Used to indicate to the device the card CVM requirements, issuer preferences, and card capabilities.",
        "B", "ctq", "", 0),
    Info(48908, "File Control Information (FCI) Issuer Discretionary Data",
        "Issuer discretionary part of the File Control Information (FCI)",
        "VAR", "none", "", 0)>>

\* Registered application provider identifiers: scheme, product, products by PIX
Aids == <<
    <<<<160, 0, 0, 0, 3>>, "VISA", "UNKNOWN", <<<<<<16, 16>>, "VISA_CREDIT_DEBIT">>, <<<<32, 16>>, "VISA_ELECTRON">>, <<<<32, 32>>, "VISA_VPAY">>, <<<<128, 16>>, "VISA_PLUS">>>>>>,
    <<<<160, 0, 0, 0, 152>>, "VISA", "VISA_USA_DEBIT", <<>>>>,
    <<<<160, 0, 0, 0, 4>>, "MASTERCARD", "UNKNOWN", <<<<<<16, 16>>, "MASTERCARD_CREDIT_DEBIT">>, <<<<48, 96>>, "MASTERCARD_MAESTRO">>, <<<<96, 0>>, "MASTERCARD_CIRRUS">>, <<<<34, 3>>, "MASTERCARD_USA_DEBIT">>>>>>,
    <<<<160, 0, 0, 0, 5>>, "MASTERCARD", "MASTERCARD_MAESTRO_UK", <<>>>>,
    <<<<176, 18, 52, 86, 120>>, "MASTERCARD", "MASTERCARD_TEST", <<>>>>,
    <<<<160, 0, 0, 0, 37>>, "AMEX", "AMEX_CREDIT_DEBIT", <<>>>>,
    <<<<160, 0, 0, 7, 144>>, "AMEX", "AMEX_CHINA_CREDIT_DEBIT", <<>>>>,
    <<<<160, 0, 0, 1, 82>>, "DISCOVER", "UNKNOWN", <<<<<<48, 16>>, "DISCOVER_CARD">>, <<<<64, 16>>, "DISCOVER_USA_DEBIT">>>>>>,
    <<<<160, 0, 0, 3, 36>>, "DISCOVER", "DISCOVER_ZIP", <<>>>>,
    <<<<160, 0, 0, 0, 66>>, "CB", "UNKNOWN", <<<<<<16, 16>>, "CB_CREDIT_DEBIT">>, <<<<32, 16>>, "CB_DEBIT">>>>>>,
    <<<<160, 0, 0, 0, 101>>, "JCB", "UNKNOWN", <<>>>>,
    <<<<160, 0, 0, 1, 33>>, "DANKORT", "UNKNOWN", <<<<<<71, 17>>, "DANKORT_VISADANKORT">>, <<<<71, 18>>, "DANKORT_JSPEEDY">>>>>>,
    <<<<160, 0, 0, 3, 51>>, "UNIONPAY", "UNKNOWN", <<<<<<1, 1, 1>>, "UNIONPAY_DEBIT">>, <<<<1, 1, 2>>, "UNIONPAY_CREDIT">>, <<<<1, 1, 3>>, "UNIONPAY_QUASI_CREDIT">>, <<<<1, 1, 6>>, "UNIONPAY_ELECTRONIC_CASH">>, <<<<1, 1, 8>>, "UNIONPAY_USA_DEBIT">>>>>>,
    <<<<160, 0, 0, 3, 55>>, "GIMUEMOA", "UNKNOWN", <<<<<<16, 16, 0>>, "GIMUEMOA_STANDARD">>, <<<<16, 16, 1>>, "GIMUEMOA_PREPAID_ONLINE">>, <<<<16, 32, 0>>, "GIMUEMOA_CLASSIC">>, <<<<16, 32, 1>>, "GIMUEMOA_PREPAID_OFFLINE">>, <<<<48, 16, 0>>, "GIMUEMOA_RETRAIT">>, <<<<96, 16, 1>>, "GIMUEMOA_ELECTRONIC_WALLET">>>>>>,
    <<<<160, 0, 0, 3, 89, 16, 16, 2, 128, 1>>, "DK", "DK_GIROCARD", <<>>>>,
    <<<<160, 0, 0, 3, 113>>, "VERVE", "UNKNOWN", <<>>>>,
    <<<<160, 0, 0, 3, 132>>, "EFTPOS", "UNKNOWN", <<<<<<16>>, "EFTPOS_SAVINGS">>, <<<<32>>, "EFTPOS_CHEQUE">>>>>>,
    <<<<160, 0, 0, 5, 36>>, "RUPAY", "UNKNOWN", <<>>>>,
    <<<<160, 0, 0, 6, 88>>, "MIR", "UNKNOWN", <<<<<<16, 16>>, "MIR_CREDIT">>, <<<<32, 16>>, "MIR_DEBIT">>>>>>,
    <<<<160, 0, 0, 7, 50>>, "MEEZA", "UNKNOWN", <<>>>>>>

ProductNames == <<
    <<"VISA_CREDIT_DEBIT", "Visa Credit/Debit">>,
    <<"VISA_ELECTRON", "Visa Electron">>,
    <<"VISA_VPAY", "V Pay">>,
    <<"VISA_PLUS", "Visa Plus">>,
    <<"VISA_USA_DEBIT", "Visa USA Debit">>,
    <<"MASTERCARD_CREDIT_DEBIT", "Mastercard Credit/Debit">>,
    <<"MASTERCARD_MAESTRO", "Maestro">>,
    <<"MASTERCARD_CIRRUS", "Mastercard Cirrus">>,
    <<"MASTERCARD_USA_DEBIT", "Mastercard USA Debit">>,
    <<"MASTERCARD_MAESTRO_UK", "Maestro UK">>,
    <<"MASTERCARD_TEST", "Mastercard Test Card">>,
    <<"AMEX_CREDIT_DEBIT", "American Express Credit/Debit">>,
    <<"AMEX_CHINA_CREDIT_DEBIT", "American Express (China Credit/Debit)">>,
    <<"DISCOVER_CARD", "Discover Card">>,
    <<"DISCOVER_USA_DEBIT", "Discover USA Debit">>,
    <<"DISCOVER_ZIP", "Discover ZIP">>,
    <<"CB_CREDIT_DEBIT", "Cartes Bancaires (CB) Credit/Debit">>,
    <<"CB_DEBIT", "Cartes Bancaires (CB) Debit">>,
    <<"DANKORT_VISADANKORT", "Visa/Dankort">>,
    <<"DANKORT_JSPEEDY", "Dankort (J/Speedy)">>,
    <<"UNIONPAY_DEBIT", "UnionPay Debit">>,
    <<"UNIONPAY_CREDIT", "UnionPay Credit">>,
    <<"UNIONPAY_QUASI_CREDIT", "UnionPay Quasi-credit">>,
    <<"UNIONPAY_ELECTRONIC_CASH", "UnionPay Electronic Cash">>,
    <<"UNIONPAY_USA_DEBIT", "UnionPay USA Debit">>,
    <<"GIMUEMOA_STANDARD", "GIM-UEMOA Standard">>,
    <<"GIMUEMOA_PREPAID_ONLINE", "GIM-UEMOA Prepaye Online">>,
    <<"GIMUEMOA_CLASSIC", "GIM-UEMOA Classic">>,
    <<"GIMUEMOA_PREPAID_OFFLINE", "GIM-UEMOA Prepaye Possibile Offline">>,
    <<"GIMUEMOA_RETRAIT", "GIM-UEMOA Retrait">>,
    <<"GIMUEMOA_ELECTRONIC_WALLET", "GIM-UEMOA Porte Monnaie Electronique">>,
    <<"DK_GIROCARD", "Deutsche Kreditwirtschaft (DK) Girocard">>,
    <<"EFTPOS_SAVINGS", "eftpos (Australia) savings">>,
    <<"EFTPOS_CHEQUE", "eftpos (Australia) cheque">>,
    <<"MIR_CREDIT", "Mir Credit">>,
    <<"MIR_DEBIT", "Mir Debit">>>>

SchemeNames == <<
    <<"VISA", "Visa">>,
    <<"MASTERCARD", "Mastercard">>,
    <<"AMEX", "American Express">>,
    <<"DISCOVER", "Discover">>,
    <<"CB", "Cartes Bancaires (CB)">>,
    <<"JCB", "JCB">>,
    <<"DANKORT", "Dankort">>,
    <<"UNIONPAY", "UnionPay">>,
    <<"GIMUEMOA", "GIM-UEMOA">>,
    <<"DK", "Deutsche Kreditwirtschaft (DK)">>,
    <<"VERVE", "Verve">>,
    <<"EFTPOS", "eftpos (Australia)">>,
    <<"RUPAY", "RuPay">>,
    <<"MIR", "Mir">>,
    <<"MEEZA", "Meeza">>>>

=============================================================================
