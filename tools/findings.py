import subprocess
m={ # commit -> property
'ab8de07':'C23', '4e21772':'C23', '11eb323':'C27', '3efe736':'C03', '4856846':'C16', 'b0e2a0d':'C29',
'3e0153f':'C06', '7edf5bc':'C06', '1cad279':'C05', '72eb59d':'C07', 'f344b8c':'C16', 'ad78002':'C13',
'3af0025':'C04', 'e6f0c9a':'C06', '38b2eef':'C03', '1dc60cd':'C21', '75a7b48':'C12', '0bee8fd':'C15',
'9fcba15':'C15', '07db21b':'C07', '4d165e4':'C14', '7018936':'C30', '13615c4':'C30', '77ae371':'C06',
'4088d82':'C11', 'f04db46':'C08', 'eb29af4':'C30', 'a267e26':'C05', '5193445':'C07', '2d0b0fb':'C30',
'ca82d4c':'C08', '088d736':'C18', '629a688':'C18', '4ea08d0':'C18', 'e3c0f5a':'C19', 'be9ecf1':'C32',
'cabc713':'C14', 'fb98de8':'C31', 'a65c9b2':'C30', '94a8580':'C30', 'b00ed37':'C31', 'f5ac607':'C31',
'36706ee':'C20', 'e4f1d70':'C11', 'd04d9c1':'C30', '9b9f680':'C07', '6625ea7':'C30', '361b8e4':'C34',
'458a3a0':'C34', 'e8dc09a':'C35', 'b879957':'C36', '75a8342':'C36', '4d6e28d':'C36', '72305f8':'C37',
}
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','ffba7f1..HEAD'],text=True).splitlines()
out='''# Findings in PDXostc/reliable_multicast. "known:" entries are not repaired; their checks replay exactly the history named
# (harness/chk_known.cc) and print KNOWN-FINDING while it still fails. "fixed:" entries suppress nothing.
known: property=C03 first-packet-lost The first packet sent to a new subscriber is lost on multicast and a later one arrives before the resend: the later one starts the delivered run, and the resent first packet is dropped as a duplicate. History: subscribe, accept, send 1 (lost) and 2 (received), serve everything for 1 s; packet 2 is delivered, packet 1 never. A subscriber cannot know which packet its run starts with (the protocol does not say), so the repair needs a protocol change. The generators keep the first packet of a connection from being overtaken (chk_world.cc route(), hold_until).
known: property=C01 C01-unaccepted Packets sent after a subscriber connected but before the publisher accepted it are received by it and are not tracked for it: if one of them is lost while an earlier one arrived, nobody resends it and the subscriber waits for it forever. History: subscribe, send 1 (received) and 2 (lost), accept, send 3; packet 1 is delivered, 2 and 3 never. Needs a protocol change. The generators do not let such packets arrive (chk_world.cc route()).
'''
for l in log:
    h,s=l.split(' ',1)
    assert h in m,h
    out+=f"fixed: property={m[h]} {h} {s[5:]}\n"
open('/verif/KNOWN_FINDINGS.txt','w').write(out)
